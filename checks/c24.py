"""C24: larger bases, larger operators: the order of spectra."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import copy
import numpy as np
import legume
from vlib import lg, desc

HC = 6.62607015e-34 * 299792458. / 1.602176634e-19     # eV m
ME = 9.1093837015e-31
A0 = 4e-7
EV = HC / A0


def gme(a, st, gi, n=None):
    """The complete spectrum, or n states"""
    p = desc.phc(dict(a['v'], s=st['s']))
    sim = legume.GuidedModeExp(p, gmax=st['gm'], truncate_g=a['tr'])
    kw = dict(kpoints=st['k'], gmode_inds=gi, compute_im=False,
              verbose=False, gmode_step=1e-2)
    sim.run(numeig=1, **kw)
    sim.run(numeig=n or sim.eigvecs[0].shape[0], **kw)
    return np.asarray(sim.freqs[0])


def spectrum(a, st):
    """Ascending energies; for polaritons, those of photons and excitons"""
    kind = a['kind']
    if kind == 'gme':
        return gme(a, st, sorted(st['modes'])), []
    if kind == 'slab':
        return gme(a, st, [0, 1, 2, 3]), []
    if kind == 'pwe':
        sim = legume.PlaneWaveExp(desc.layer(dict(a['v'], s=st['s'])),
                                  gmax=st['gm'])
        sim.run(kpoints=st['k'], pol=a['pol'], numeig=10**4)
        return np.asarray(sim.freqs[0]), []
    p = desc.phc(a['v'])
    if kind == 'ese':
        sim = legume.ExcitonSchroedEq(
            p, z=p.layers[-1].z_mid, V_shapes=st['V'] / 1e3, a=A0,
            M=.02 * ME * st['M'], E0=.1, loss=0., osc_str=[1., 1., 1.],
            gmax=st['gm'], truncate_g=a['tr'])
        sim.run(kpoints=st['k'], numeig_ex=10**4, verbose_ex=False)
        return np.real(sim.eners[0]), []
    for w in a['wells']:
        lay = p.layers[w['lay'] - 1]
        p.add_qw(z=lay.z_min + lay.d * w['at'] / 10, V_shapes=w['V'] / 1e3,
                 a=A0, M=.05 * ME, E0=st['e0'] + w['e'] / 1e3, loss=0.,
                 osc_str=st['str'] * 1e14 * np.array(w['f'], float))
    sim = legume.HopfieldPol(p, gmax=st['gm'], truncate_g=a['tr'])
    sim.run(gme_options=dict(gmode_inds=[0, 1], numeig=a['ne'],
                             gmode_step=1e-2, verbose=False),
            exc_options=dict(numeig_ex=a['ne'], verbose_ex=False),
            kpoints=st['k'], verbose=False)
    if np.abs(sim.gme.freqs_im).max() > 1e-10:
        return None, []
    return np.real(sim.eners[0]), np.real(np.concatenate(
        [x.eners[0] for x in sim.exc_list]))


def start(a):
    k = np.array(a['k'], float)
    st = dict(s=copy.deepcopy(a['v']['s']), V=a['V'], M=a['M'], str=1.,
              modes={a['m0']}, gm=desc.gmax(a['v']))
    if a['kind'] == 'pol':
        # below the light lines
        st['s']['el'] = st['s']['eu'] = 1
        a['v']['s'].update(el=1, eu=1)
        b = np.linalg.inv(np.array(st['s']['lat']).reshape(2, 2) / 60.).T
        st['k'] = np.pi * (b[0] + (k[0] % 2) * b[1])[:, None]
        st['gm'] = desc.gmax(a['v'], (1.53, 1.37, 1.63, 1.21))
        st['e0'] = EV * gme(a, st, [0, 1], a['ne']).mean()
        return st
    st['k'] = 2 * np.pi * k[:, None] / 20
    if a['neg']:
        st['V'] = -st['V']
    return st


def change(a, st, r):
    """One step in the known direction; False: nothing left to change"""
    st = copy.deepcopy(st)
    op = r['op']
    if op == 'modes':
        if r['at'] in st['modes']:
            return None
        st['modes'].add(r['at'])
    elif op == 'eps' and a['kind'] == 'slab':
        st['s']['layers'][0]['eps'] += r['by']
    elif op == 'eps':
        lay = st['s']['layers'][0]
        i = r['at']
        if i >= len(lay['shapes']):
            lay['eps'] += r['by']
        elif r['by'] < 3 or lay['shapes'][i]['k'] not in ('circle', 'square'):
            lay['shapes'][i]['eps'] += r['by']
        else:
            sh = lay['shapes'][i]
            sh['r'] += 1 if sh['eps'] > lay['eps'] else -1
    elif op == 'thick':
        st['s']['layers'][0]['d'] += r['by']
    elif op == 'waves':
        st['gm'] *= 1 + .2 * r['by']
    elif op == 'well':
        st['V'] += (-1 if a['neg'] else 1) * 5 * r['by']
    elif op == 'mass':
        st['M'] += r['by']
    elif op == 'coupling':
        st['str'] *= 1 + 2 * r['by']
    return st


def run_case(case):
    a = case[0]
    e0 = dict(op='base', kind=a['kind'], lo=0, hi=0, tol=40,
              id='%s %s' % (a['kind'], a['tr']))
    st = call(start, a)
    if st[0] != 'ok':
        return [] if 'No guided' in st[1] else [dict(e0, ok=False, err=st[1])]
    st, evs, n0 = st[1], [], None
    for r in case:
        if r['op'] == 'end':
            break
        if r['op'] != 'base':
            new = change(a, st, r)
            if new is None:
                continue
            st = new
        s, o = call(spectrum, a, st)
        if s != 'ok':
            if 'No guided' in o and not evs:
                if a['kind'] == 'gme':
                    continue    # not a mode that is guided anywhere
                return []
            return evs + [dict(e0, op=r['op'], ok=False, err=o)]
        f, x = o
        if f is None:
            return []
        evs.append(dict(e0, op=r['op'] if evs else 'base', ok=True,
                        f=fxl(f), lo=fx(x.min()) - 40 if len(x) else 0,
                        hi=fx(x.max()) + 40 if len(x) else 0))
    return evs


def body(c):
    c.model('VariationMC')
    c.model('VariationMC', 'VariationMC_renorm', expect_violation='Laws')
    cases = c.generate('VariationGen', num=3000 if THOROUGH else 400, depth=9)
    traces = [t for t in pmap(run_case, cases, chunk=5) if t]
    c.sample([{k: v for k, v in e.items() if k != 'f'} for e in traces[0]])
    cnt = {}
    for t in traces:
        for e in t:
            k = e['kind'] + ':' + e['op']
            cnt[k] = cnt.get(k, 0) + 1
    c.extra['events'] = cnt
    c.judge('VariationTrace', traces, batch=max(20, len(traces) // 8))


if __name__ == '__main__':
    main('C24', body, assumptions=[
        'polaritons without losses only (below the light lines)'])
