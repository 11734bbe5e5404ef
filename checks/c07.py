"""C07: every k-point of a list is solved independently of the others."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import numpy as np
import legume
from vlib import lg, desc
import checks.c05 as c05

OSC = np.array([4e16, 4e16, 1e16])
NE = 4


def build(a, gm):
    p = desc.phc(a['v'])
    if a['kind'] == 'pwe':
        return legume.PlaneWaveExp(desc.layer(a['v']), gmax=gm)
    if a['kind'] == 'ese':
        return legume.ExcitonSchroedEq(p, z=.1, gmax=gm, truncate_g=a['tr'],
                                       osc_str=OSC, **c05.QW)
    if a['kind'] == 'gme':
        return legume.GuidedModeExp(p, gmax=gm, truncate_g=a['tr'])
    p.add_qw(z=p.layers[0].d * .3, osc_str=OSC, **c05.QW)
    return legume.HopfieldPol(p, gmax=gm, truncate_g=a['tr'])


def run(ob, a, ids):
    pts = [a['pool'][i - 1] for i in ids]
    ks = 2 * np.pi * np.array([p['k'] for p in pts], float).T / 20
    g = dict(gmode_inds=list(a['gi']), numeig=NE, verbose=False,
             gmode_step=1e-2, compute_im=True, eig_solver=a['sol'],
             eig_sigma=a['sg'] / 10, use_sparse=a['sp'],
             symm_thr=1e-5)
    if a['sy'] != 'none':
        g.update(kz_symmetry=a['sy'], angles=np.array([p['a'] for p in pts],
                                                      float))
    if a['kind'] == 'gme':
        ob.run(kpoints=ks, **g)
    elif a['kind'] == 'pwe':
        ob.run(kpoints=ks, pol=a['pol'], numeig=NE)
    elif a['kind'] == 'ese':
        ob.run(kpoints=ks, numeig_ex=NE, verbose_ex=False)
    else:
        g.update(eig_solver='eigh')
        ob.run(gme_options=g, exc_options=dict(numeig_ex=2, verbose_ex=False),
               kpoints=ks, verbose=False)
    return ks


def flat(x):
    return [y for r in x for y in (flat(r) if isinstance(r, list) else [r])]


def results(ob, a, ids):
    kind = a['kind']
    if kind == 'pol':
        out = []
        for ik in range(len(ob.eners)):
            E = np.asarray(ob.eners[ik])
            ok = lg.masked(E)
            out.append(dict(
                fr=fxl(E), fi=fxl(np.where(ok, ob.eners_im[ik], 0), 10**9),
                lab=[len(E)], md=fxl(np.r_[np.where(ok, ob.fractions_ex[ik], 0),
                                           np.where(ok, ob.fractions_ph[ik], 0)],
                                     10**6), q={}))
        return out
    r = c05.look(kind, ob)
    n = len(r['freqs'])
    out = []
    F = np.asarray(ob.freqs if kind != 'ese' else np.real(ob.eners))
    for ik in range(n):
        ok = lg.masked(F[ik])
        fi = [x if ok[i] else 0 for i, x in enumerate(r['fim'][ik])] \
            if r['fim'] else []
        out.append(dict(
            fr=r['freqs'][ik], fi=fi,
            lab=([x if ok[i] else 0 for i, x in enumerate(r['symm'][ik])]
                 if len(r['symm']) else []) +
                ([x if ok[i // 2] else 0 for i, x in enumerate(r['chan'][ik])]
                 if r['chan'] else []),
            md=r['modes'][ik] + (r['coup'][ik] if r['coup'] else []), q={}))
    return out


def question(ob, a, pos, m, q):
    return c05.query(a['kind'], ob, dict(q=q, k=pos, m=m))


def run_case(case):
    a = case[0]
    if a['kind'] == 'pol':
        # a photon of zero frequency has no coupling constant
        for p in a['pool']:
            if p['k'] == [0, 0]:
                p['k'] = [0, 2] if p['a'] == 90 else [2, 0]
    lg.EDGES = (a['sg'] != 0 and a['kind'] == 'gme', a['kind'] != 'pol')
    gm = desc.gmax(a['v'], (1.53, 1.63, 1.77, 1.47, 1.69, 1.83))
    ids = [1, 2, 3, 4, 5, 6]
    used = {i for r in case for i in r.get('ks', [])}
    evs = []
    for i in ids:
        if i not in used:
            continue
        def alone():
            ob = build(a, gm)
            run(ob, a, [i])
            r = results(ob, a, [i])
            if a['kind'] != 'pol':
                r[0]['q'] = {'%s%d' % (q, m): question(ob, a, 0, m, q)
                             for q in ('rad', 'field') for m in range(3)}
            return r
        st, o = call(alone)
        e = dict(op='alone', ks=[i], ok=st == 'ok', id='alone')
        evs.append(dict(e, res=o) if st == 'ok' else dict(e, err=o, res=[]))
    ob = None
    for r in case[1:]:
        if r['op'] == 'run':
            def go():
                nonlocal ob
                if ob is None or r['new']:
                    ob = build(a, gm)
                ks = run(ob, a, r['ks'])
                k2 = np.asarray(ob.kpoints)
                return (k2.shape == ks.shape and np.allclose(k2, ks),
                        results(ob, a, r['ks']))
            last = r['ks']
            st, o = call(go)
            e = dict(op='run', ks=r['ks'], ok=st == 'ok',
                     id='%s %s' % (a['kind'], r['ks']))
            evs.append(dict(e, kept=bool(o[0]), res=o[1]) if st == 'ok' else
                       dict(e, err=o, res=[]))
            if st != 'ok':
                break
        elif r['op'] == 'query' and a['kind'] != 'pol':
            at = r['pos'] % len(last)
            st, o = call(question, ob, a, at, r['m'], r['q'])
            e = dict(op='query', at=at, key='%s%d' % (r['q'], r['m']),
                     ok=st == 'ok', id='%s %s' % (a['kind'], r['q']))
            evs.append(dict(e, val=o) if st == 'ok' else dict(e, err=o))
    return evs


def body(c):
    c.model('KListMC')
    c.model('KListMC', 'KListMC_shared', expect_violation='Right')
    cases = c.generate('KListGen', num=2500 if THOROUGH else 140, depth=12)
    traces = pmap(run_case, cases, chunk=1)
    c.sample([{k: v for k, v in e.items() if k in ('op', 'ks', 'at', 'key')}
              for e in traces[0]])
    c.judge('KListTrace', traces, batch=max(10, len(traces) // 8))


if __name__ == '__main__':
    main('C07', body)
