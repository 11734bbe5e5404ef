"""C20: plane-wave expansion: equivalent descriptions, uniform media, fields."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import numpy as np
import legume
from vlib import lg, desc, fields

N = 8


def spectra(v, eff, gm, n, drawn):
    L, E = desc.scales(v)
    if eff is not None and drawn:
        # the same background drawn, and not given as an option
        lay = dict(v['s']['layers'][0], eps=eff)
        v = dict(v, s=dict(v['s'], layers=[lay]))
        eff = None
    sim = legume.PlaneWaveExp(desc.layer(v), gmax=gm,
                              **({} if eff is None else dict(eps_eff=eff * E)))
    f = []
    for pol in ('te', 'tm'):
        sim.run(kpoints=desc.kpoint(v), pol=pol, numeig=n)
        f.append(fxl(sim.freqs[0], 10**7 * desc.units(v)))
    return dict(f=f, g=[])


def run_equiv(case):
    a = case[0]
    gm = desc.gmax(a['v'])
    evs = []
    # eps_eff replaces the background: what is drawn with the permittivity of
    # the background then is not the background
    null = any(act['op'] == 'null' for act in case)
    eff = None if null else [None, 5., 9.][a['w'] % 3]
    for act in case:
        if act['op'] == 'end':
            break
        v = act['v']
        st, o = call(spectra, v, eff, gm / desc.scales(v)[0], N,
                     act['op'] in ('again', 'reversek'))
        e = dict(act, ok=st == 'ok', id=act['op'])
        e.update(o if st == 'ok' else dict(err=o, f=[], g=[]))
        evs.append(e)
    return evs


FIELDS = dict(h=('h', 'H'), d=('d', 'D'), e=('e', 'E'))


def run_fields(case):
    a = case[0]
    v = a['v']
    evs = [dict(a, id='base')]
    lay = desc.layer(v)
    gm = desc.gmax(v)
    st, sim = call(legume.PlaneWaveExp, lay, gmax=gm)
    if st != 'ok':
        return evs + [dict(op='run', id='new', ok=False, err=sim)]
    m = fields.indexes(sim, lay.lattice)
    KD = fields.kd(v)
    n = 0
    for act in case[1:]:
        if act['op'] == 'end':
            break
        if act['op'] == 'run':
            ks = 2 * np.pi * np.array(act['ks'], float).T / 20
            n = min(act['n'], len(m))
            st, o = call(sim.run, kpoints=ks, pol=act['pol'], numeig=n)
            e = dict(op='run', id='run', ok=st == 'ok', ks=act['ks'],
                     uniform=a['uniform'])
            if st == 'ok':
                e['m'] = m
                eb = v['s']['layers'][0]['eps']
                e['f2'] = [fxl(np.asarray(f)**2 * eb * KD**2, 10)
                           for f in sim.freqs]
            else:
                e['err'] = o
            evs.append(e)
            continue
        kind, i = act['kind'], min(act['i'], n - 1)
        k = 2 * np.pi * np.array(act['ks'] if 'ks' in act else
                                 np.asarray(sim.kpoints)[:, kind] / 2 / np.pi)

        def ft():
            f = float(sim.freqs[kind][i])
            H = np.array(sim.ft_field_xy('H', kind, i))
            D = np.array(sim.ft_field_xy('D', kind, i))
            E = np.array(sim.ft_field_xy('E', kind, i))
            ee = np.array([fields.eps_matrix(sim, lay) @ c for c in E])
            S = 10**5
            z = np.zeros_like(H)
            # at zero frequency (k = 0) the curl relations are empty, and D
            # is not defined
            if f < 1e-4:
                z0 = [[0] * 6] * len(m)
                return dict(H=z0, D=z0, E=z0, dH=z0, dD=z0, wD=z0, wH=z0,
                            D7=[], epsE=[], faraday=False)
            return dict(H=fields.pack(H, S), D=fields.pack(D, S),
                        E=fields.pack(E, S), dH=fields.pack(z, S),
                        dD=fields.pack(z, S), wD=fields.pack(D, S * KD * f),
                        wH=fields.pack(H, S * KD * f),
                        D7=fields.pack(D, 10**7),
                        epsE=fields.pack(ee, 10**7), faraday=True)

        def views():
            g = np.asarray(sim.gvec)
            out = []
            # at zero frequency only H is defined
            fd = act['fd'] if float(sim.freqs[kind][i]) > 1e-4 else 'H'
            F = sim.ft_field_xy(fd, kind, i)
            fi, x, y = sim.get_field_xy(fd, kind, i, component=act['comp'],
                                        Nx=act['nx'], Ny=act['ny'])
            out.append(dict(what='components', a=sorted(map(ord, fi)),
                            b=sorted(set(map(ord, act['comp']))), tol=0))
            sc = 10**7
            for c in fi:
                s = fields.series(F['xyz'.index(c)], g, x, y)
                out.append(fields.pair('section-' + c, fi[c], s, s=sc))
            gx, gy = lay.lattice.xy_grid(Nx=act['nx'], Ny=act['ny'])
            out.append(fields.pair('grid', np.r_[x, y], np.r_[gx, gy]))
            # the permittivity shown is the truncated series
            eps, x, y = sim.get_eps_xy(Nx=act['nx'], Ny=act['ny'])
            d = (g[:, :, None] - g[:, None, :]).reshape(2, -1)
            r = np.unique(np.round(d, 8), axis=1)
            out.append(fields.pair('eps', eps,
                                   fields.series(lay.compute_ft(r), r, x, y),
                                   s=10**6))
            return dict(pairs=out)

        if act['op'] == 'ft':
            st, o = call(ft)
        elif act['op'] in ('views', 'norm', 'interface'):
            st, o = call(views)
        e = dict(sgn=1, op='ft' if act['op'] == 'ft' else 'views', kind=kind, i=i,
                 ok=st == 'ok', m=m, id=act['op'],
                 kk=[int(x) for x in np.rint(
                     np.asarray(sim.kpoints)[:, kind] * 20 / 2 / np.pi)])
        e.update(o if st == 'ok' else dict(err=o))
        evs.append(e)
    return evs


def body(c):
    c.model('EquivMC')
    c.model('FieldLawsMC')
    c.model('FieldLawsMC', 'FieldLawsMC_sign', expect_violation='NoDiv')
    cases = c.generate('EquivGen', 'EquivGen_pwe',
                       num=3000 if THOROUGH else 150, depth=12)
    traces = pmap(run_equiv, cases, chunk=4)
    c.sample(traces[0][:2])
    c.judge('EquivTrace', traces, batch=max(10, len(traces) // 8),
            consts=dict(tf=5, tg=100))
    cases = c.generate('FieldGen', 'FieldGen_pwe',
                       num=2000 if THOROUGH else 120, depth=14)
    traces = pmap(run_fields, cases, chunk=4)
    c.sample([{k: v for k, v in e.items() if k in ('op', 'ks', 'kind', 'i')}
              for e in traces[0]])
    c.judge('FieldTrace', traces, batch=max(10, len(traces) // 8))


if __name__ == '__main__':
    main('C20', body, assumptions=[
        'the curl relations of modes at zero frequency are empty'])
