"""C03: the reciprocal basis."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import numpy as np
import legume
from vlib import lg


def run_case(case):
    a = case[0]
    evs = [dict(op='lat', id='lat')]
    for act in case[1:]:
        if act['op'] != 'sim':
            continue
        u = act['u']
        if a['name'] == '':
            v = np.array([a['a1'], a['a2']], int)
            w = np.array([[u[0], u[1]], [u[2], u[3]]]) @ v
            g = w @ w.T
            gram, sd = [int(g[0, 0]), int(g[0, 1]), int(g[1, 1])], 16
            args = [list(w[0] / 4.), list(w[1] / 4.)]
        else:
            args = [a['name']]
            gram, sd = ([1, 0, 1], 1) if a['name'] == 'square' else (
                [2, -1, 2], 2)
        kind = act['kind']
        gm = act['gn'] / 10

        def go():
            lat = legume.Lattice(*args)
            if kind == 'pwe':
                lay = legume.ShapesLayer(lat, 0, .5, eps_b=3.)
                sim = legume.PlaneWaveExp(lay, gmax=gm)
            else:
                p = legume.PhotCryst(lat)
                p.add_layer(d=.5, eps_b=4.)
                if kind.startswith('gme'):
                    sim = legume.GuidedModeExp(p, gmax=gm, truncate_g=kind[4:])
                else:
                    sim = legume.ExcitonSchroedEq(
                        p, z=.25, V_shapes=0., a=1e-7, M=1e-31, E0=1.5,
                        loss=0., gmax=gm, truncate_g=kind[4:])
            A = np.array([lat.a1, lat.a2], float)
            B = np.array([lat.b1, lat.b2], float)
            ix = A @ np.asarray(sim.gvec) / 2 / np.pi
            r = np.rint(ix)
            return dict(dual=fxl(A @ B.T / 2 / np.pi),
                        dev=fx(np.abs(ix - r).max()),
                        ix=[[int(i), int(j)] for i, j in r.T])
        st, o = call(go)
        e = dict(op='sim', id='%s:%s' % (kind, a['name'] or 'general'),
                 ok=st == 'ok', tr='abs' if kind.endswith('abs') else 'tbt',
                 g=gram, sd=sd, gn=act['gn'], args=str(args))
        e.update(o if st == 'ok' else dict(err=o))
        evs.append(e)
    return evs


def body(c):
    c.model('BasisMC')
    c.model('BasisMC', 'BasisMC_narrow', expect_violation='Complete')
    cases = c.generate('BasisGen', num=2500 if THOROUGH else 160, depth=10)
    traces = pmap(run_case, cases, chunk=8)
    c.sample([{k: v for k, v in e.items() if k != 'ix'} for e in traces[0]])
    c.judge('BasisTrace', traces, batch=20)


if __name__ == '__main__':
    main('C03', body, assumptions=[
        'lattice vectors in multiples of 1/4 (and the square and hexagonal '
        'lattice), cutoffs in multiples of 0.1 (many exactly the length of a '
        'vector, which then belongs to the set)'])
