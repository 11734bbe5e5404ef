"""C04: the permittivity used by the solvers."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import numpy as np
import legume
from vlib import lg, desc, fields

INDS = [[0, 1], [0, 1, 2, 3], [0, 2], [0, 1, 2], [1], [0], [0, 1, 3]]
S = 10**7


def components(eps, x, y, g):
    """Least-squares Fourier components of a map over the mesh of x and y"""
    X, Y = np.meshgrid(x, y)
    A = np.exp(1j * (np.outer(X.ravel(), g[0]) + np.outer(Y.ravel(), g[1])))
    b = np.asarray(eps).ravel()
    c = np.linalg.lstsq(A, b, rcond=None)[0]
    return c, np.abs(A @ c - b).max()


def candidates(ix):
    """Differences of the indexes, and a border of others"""
    d = {(a[0] - b[0], a[1] - b[1]) for a in ix for b in ix}
    more = {(a + p, b + q) for a, b in d for p in (-1, 0, 1)
            for q in (-1, 0, 1)}
    return sorted(more)


def run_case(case):
    a = case[0]
    v = a['v']
    pwe = a['w'] % 4 == 0
    gm = desc.gmax(v)
    L = desc.units(v)           # the unit of length is arbitrary

    def new():
        if pwe:
            lay = desc.layer(v)
            return [lay], legume.PlaneWaveExp(lay, gmax=gm), lay.lattice
        p = desc.phc(v)
        return ([p.claddings[0]] + p.layers + [p.claddings[1]],
                legume.GuidedModeExp(p, gmax=gm, truncate_g=a['tr']),
                p.lattice)
    st, o = call(new)
    e = dict(op='base', id='pwe' if pwe else a['tr'], ok=st == 'ok', v=v,
             tr=a['tr'], w=a['w'])
    if st != 'ok':
        return [dict(e, err=o)]
    lays, sim, lat = o
    g = np.asarray(sim.gvec)
    ix = fields.indexes(sim, lat)
    evs = [dict(e, ix=ix)]
    B = np.array([lat.b1, lat.b2], float).T
    ms = candidates(ix)
    G = B @ np.array(ms, float).T
    n = 0
    ran = False
    for act in case[1:]:
        if act['op'] == 'end':
            break
        if act['op'] == 'run':
            ks = 2 * np.pi * np.array(act['ks'], float).T / 20 / L
            n = act['n']
            while n > 0:
                if pwe:
                    n = min(n, len(ix))
                    st, o = call(sim.run, kpoints=ks, pol=act['pol'], numeig=n)
                else:
                    st, o = call(sim.run, kpoints=ks, numeig=n, verbose=False,
                                 gmode_inds=INDS[act['inds'] - 1],
                                 gmode_step=1e-2 / L, compute_im=False)
                if st == 'ok' or 'Requested' not in o:
                    break
                n -= 1
            ran = st == 'ok'
            if not ran and 'No guided' in o:
                break       # all of the chosen modes are cut off here
            if not ran:
                evs.append(dict(op='run', id='run', ok=False, err=o))
                break
            continue
        kind, i = act['kind'], min(act['i'], n - 1)
        lay = 0 if pwe else act['lay']
        if pwe:
            z = 0.
        elif lay == 0:
            z = -.6 * L * act['zf'] / 100
        elif lay == len(lays) - 1:
            z = float(lays[-1].z_min) + .6 * L * act['zf'] / 100
        else:
            z = float(lays[lay].z_min) + lays[lay].d * act['zf'] / 100

        def themap():
            nn = int(np.sqrt(2.5 * len(ms))) + 4
            rng = np.random.RandomState(act['zf'])
            if pwe:
                # only the grid of the cell can be asked for
                eps, x, y = sim.get_eps_xy(Nx=nn, Ny=nn + 1)
            else:
                x = L * (np.sort(rng.rand(nn)) * 1.7 - .8)
                y = L * (np.sort(rng.rand(nn + 1)) * 1.9 - .7)
                eps = sim.get_eps_xy(z=z, xgrid=x, ygrid=y)[0]
            c, res = components(eps, x, y, G)
            ref = np.asarray(lays[lay].compute_ft(G))
            if np.linalg.matrix_rank(np.exp(1j * (
                    np.outer(np.meshgrid(x, y)[0].ravel(), G[0]) +
                    np.outer(np.meshgrid(x, y)[1].ravel(), G[1]))),
                    tol=1e-3) < len(ms):
                # the grid cannot tell these components apart: compare what is
                # seen on it with the sum over the differences
                d = {(p[0] - q[0], p[1] - q[1]) for p in ix for q in ix}
                on = np.array([m in d for m in ms])
                s = fields.series(ref * on, G, x, y)
                c, res = ref * on, np.abs(s - eps).max()
            return dict(m=[list(x) for x in ms], re=fxl(c.real, S),
                        im=fxl(c.imag, S), sre=fxl(ref.real, S),
                        sim=fxl(ref.imag, S), avg=fx(lays[lay].eps_avg, S),
                        res=fx(res, S))

        def de():
            if float(sim.freqs[kind][i]) * L < 1e-4:
                return dict(d=[], ee=[])
            q = () if pwe else (z, )
            D = np.array(sim.ft_field_xy('D', kind, i, *q))
            E = np.array(sim.ft_field_xy('E', kind, i, *q))
            ee = np.array([fields.eps_matrix(sim, lays[lay]) @ c for c in E])
            n = np.abs(D).max()
            return dict(d=fields.cplx(D / n), ee=fields.cplx(ee / n))

        what = 'map' if act['op'] in ('norm', 'interface') else 'de'
        st, o = call(themap if what == 'map' else de)
        e = dict(op=what, kind=kind, i=i, ok=st == 'ok', lay=lay,
                 id='%s:%s' % (what, 'pwe' if pwe else a['tr']))
        e.update(o if st == 'ok' else dict(err=o))
        evs.append(e)
    return evs


def body(c):
    c.model('TruncEpsMC')
    c.model('TruncEpsMC', 'TruncEpsMC_quadrant',
            expect_violation='OneQuadrant')
    cases = c.generate('FieldGen', 'FieldGen_eps',
                       num=1500 if THOROUGH else 110, depth=14)
    traces = pmap(run_case, cases)
    c.sample([{k: v for k, v in e.items() if k in ('op', 'lay', 'kind', 'i')}
              for e in traces[0]])
    cnt = {}
    for t in traces:
        for e in t:
            cnt[e['id']] = cnt.get(e['id'], 0) + 1
    c.extra['events'] = cnt
    c.judge('TruncEpsTrace', traces, batch=max(8, len(traces) // 8))


if __name__ == '__main__':
    main('C04', body, assumptions=[
        'the Fourier components of the drawn structure are those of its '
        'layers (judged by C02)'])
