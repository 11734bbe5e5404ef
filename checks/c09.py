"""C09: radiation of slab modes into diffraction orders."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import numpy as np
import legume
from vlib import lg, desc, fields
import checks.c08 as c08

INDS = [[0, 1], [0, 1, 2, 3], [0, 2], [0, 1, 2], [1], [0], [0, 1, 3], [1, 3]]
CH = ('l_te', 'l_tm', 'u_te', 'u_tm')
GL = np.polynomial.legendre.leggauss(14)


def mode(f, im, ite, itm, un, coup, gl, gu, avg, KD, idx, ok):
    """coup: four arrays; gl, gu: reported reciprocal vectors"""
    c2 = [np.abs(np.asarray(c))**2 for c in coup]
    tot = sum(float(c.sum()) for c in c2)

    def w2(g):
        return 2 * g * np.sqrt(f**2 + g**2) * (2 * np.pi)**2
    return dict(ql=fx(avg[0] * f**2 * KD**2, 1), qu=fx(avg[1] * f**2 * KD**2, 1),
                gl=idx(gl), gu=idx(gu), c=[fxl(c) for c in c2],
                r=[fxl(c / tot, 10**4) if tot > 0 else fxl(c, 1) for c in c2],
                tot=fx(w2(im)), im=fx(im, 10**9), un=fx(un, 10**4),
                tote=fx(w2(ite)), totm=fx(w2(itm)), ok=bool(ok),
                low=bool(im < .03 * f and im > 1e-9))


def modes_of(sim, kind, minds, avg, KD, stored, lat):
    A = np.array([lat.a1, lat.a2], float)

    def idx(g):
        return [[int(a), int(b)] for a, b in
                np.rint(A @ np.asarray(g) / 2 / np.pi).T]
    fr = np.asarray(sim.freqs[kind])
    ok = lg.masked(fr)
    if len(minds) == len(fr):
        im, te, tm, rc, rg = sim.compute_rad_sp(kind, list(minds))
        if stored:
            im, un = sim.freqs_im[kind], sim.unbalance_sp[kind]
            rc = {c: sim.rad_coup[c][kind] for c in CH}
            rg = {c: sim.rad_gvec[c][kind] for c in 'lu'}
        else:
            un = [float(a / (a + b)) if a + b > 0 else .5
                  for a, b in zip(te, tm)]
    else:
        im, rc, rg = sim.compute_rad(kind, list(minds))
        te = tm = un = np.zeros(len(im))
    return [mode(float(fr[m]), float(im[j]), float(te[j]), float(tm[j]),
                 float(un[j]), [rc[c][j] for c in CH], rg['l'][j], rg['u'][j],
                 avg, KD, idx, ok[m])
            for j, m in enumerate(minds)]


def outgoing(eps, zs, w, g, clad, pol):
    """Profile of the wave of the layers eps (claddings included) with
    interfaces zs that is incoming with unit H in the given cladding only,
    as a list of (a, b, kz, z0): a exp(i kz (z-z0)) + b exp(-i kz (z-z0)).
    Its complex conjugate goes out in that cladding only."""
    if clad == 1:
        # mirror the slab
        r = outgoing(eps[::-1], [-z for z in zs[::-1]], w, g, 0, pol)
        return [(b, a, k, -z0) for a, b, k, z0 in r[::-1]]
    kz = [np.sqrt(complex(e * w**2 - g**2)) for e in eps]
    n = len(eps)
    # start in the upper cladding with a transmitted wave only
    out = [None] * n
    out[n - 1] = (1., 0., kz[-1], zs[-1])
    for i in range(n - 2, -1, -1):
        a, b, k, z0 = out[i + 1]
        z = zs[i]
        p = np.exp(1j * k * (z - z0))
        u, du = a * p + b / p, 1j * k * (a * p - b / p)
        if pol == 'tm':
            du = du * eps[i] / eps[i + 1]
        k = kz[i]
        zr = zs[i - 1] if i > 0 else zs[0]
        a, b = (u + du / 1j / k) / 2, (u - du / 1j / k) / 2
        p = np.exp(1j * k * (zr - z))
        out[i] = (a * p, b / p, k, zr)
    a0 = out[0][0]      # the wave that has H = 1 in the lower cladding
    return [(a / a0, b / a0, k, z0) for a, b, k, z0 in out]


def golden(sim, kind, i, lays, avg_all, plainclad, nmax=10):
    """(reported |c|^2, overlaps per layer) relative to the sum of |c|^2."""
    f = float(sim.freqs[kind][i])
    w = 2 * np.pi * f
    rc = {c: np.asarray(sim.rad_coup[c][kind][i]) for c in CH}
    tot = sum(float((np.abs(c)**2).sum()) for c in rc.values())
    if tot < 1e-7:
        return []
    gv = np.asarray(sim.gvec)
    k0 = np.asarray(sim.kpoints)[:, kind]
    # fields carry unit energy per cell, profiles per unit area
    area = abs(float(np.cross(sim.phc.lattice.a1, sim.phc.lattice.a2)))
    zs = [float(l.z_max) for l in lays[:-1]]
    segs = []                                   # (layer, nodes, weights)
    for j in range(len(lays)):
        if 0 < j < len(lays) - 1:
            a, b, parts = zs[j - 1], zs[j], 1
            e = np.linspace(a, b, parts + 1)
        else:
            if plainclad[0 if j == 0 else 1]:
                continue
            s = np.concatenate([[0], np.geomspace(.4, 30, 9)])
            e = zs[0] - s[::-1] if j == 0 else zs[-1] + s
        for a, b in zip(e[:-1], e[1:]):
            segs.append((j, (a + b) / 2 + (b - a) / 2 * GL[0],
                         (b - a) / 2 * GL[1]))
    S = []
    for j, z, wt in segs:
        for q in range(len(z)):
            E = np.array(sim.ft_field_xy('E', kind, i, z[q]))
            D = np.array(sim.ft_field_xy('D', kind, i, z[q]))
            S.append((j, z[q], wt[q], E - D / avg_all[j]))
    ends = [s for s in S if abs(s[1]) > 25]
    if ends and max(np.abs(s[3]).max() for s in ends) > 1e-7:
        return []
    out = []
    # in turn from all four lists
    todo = sorted((n, c) for c in CH for n in range(len(rc[c])))
    for n, c in todo:
        clad = 0 if c[0] == 'l' else 1
        gs = np.asarray(sim.rad_gvec[c[0]][kind][i])
        if len(out) < nmax:
            G = gs[:, n]
            at = int(np.argmin(np.hypot(*(gv - G[:, None]))))
            kg = G + k0
            g = np.hypot(*kg)
            p = kg / g if g > 1e-8 else np.array([1., 0])
            q = np.array([p[1], -p[0]])
            ec = avg_all[0 if clad == 0 else -1]
            kzc = np.sqrt(complex(ec * w**2 - g**2)).real
            # close to the opening of the order everything is singular
            if kzc < 2e-2 * w:
                continue
            prof = outgoing(avg_all, zs, w, g, clad, c[2:])
            parts = {}
            for j, z, wt, X in S:
                a, b, kz, z0 = prof[j]
                e1, e2 = a * np.exp(1j * kz * (z - z0)), \
                    b * np.exp(-1j * kz * (z - z0))
                x = X[:, at]
                if c[2:] == 'te':
                    # unit H outside means E = 1/sqrt(eps)
                    d = avg_all[j] / np.sqrt(ec) * (e1 + e2)
                    v = np.conj(d) * (q[0] * x[0] + q[1] * x[1])
                else:
                    # D = -i/w curl H, H along q
                    H, dH = e1 + e2, 1j * kz * (e1 - e2)
                    Dp, Dz = -1j / w * dH, -g / w * H
                    v = np.conj(Dp) * (p[0] * x[0] + p[1] * x[1]) + \
                        np.conj(Dz) * x[2]
                parts[j] = parts.get(j, 0) + wt * v
            s = w**2 * np.sqrt(area * ec / 4 / kzc / tot) * 1e4
            v = [parts[j] * s for j in sorted(parts)] or [0j]
            out.append(dict(r=fx(np.abs(rc[c][n])**2 / tot, 10**8), pol=c,
                            parts=[[fx(x.real, 1), fx(x.imag, 1)] for x in v],
                            fin=bool(np.all(np.isfinite(v)))))
    return out


def run_case(case):
    a = case[0]
    v = a['v']
    evs = [dict(a, id='base')]
    gm = desc.gmax(v)

    def new(tr=a['tr']):
        p = desc.phc(v)
        return p, legume.GuidedModeExp(p, gmax=gm, truncate_g=tr)
    st, o = call(new)
    if st != 'ok':
        return evs + [dict(op='run', id='new', ok=False, err=o)]
    phc, sim = o
    lat = phc.lattice
    lays = [phc.claddings[0]] + phc.layers + [phc.claddings[1]]
    avg_all = [float(l.eps_avg) for l in lays]
    avg = [avg_all[0], avg_all[-1]]
    plainclad = [not v['s']['clad'][0], not v['s']['clad'][1]]
    KD = fields.kd(v)
    cur = None

    def ev(op, f, **k):
        st, o = call(f)
        e = dict(op=op, ok=st == 'ok', id='%s %s' % (op, v['s']['lat']), **k)
        evs.append(dict(e, **(o if st == 'ok' else dict(err=o))))
        return st == 'ok'

    def do_run(s, ks, n, inds, im):
        while n > 0:
            st, o = call(s.run, kpoints=2 * np.pi * np.array(ks, float).T / 20,
                         numeig=n, verbose=False, gmode_inds=list(inds),
                         gmode_step=1e-2, compute_im=im)
            if st == 'ok':
                return n
            if 'Requested' not in o:
                raise RuntimeError(o)
            n -= 1

    for act in case[1:]:
        if act['op'] == 'end':
            break
        if act['op'] == 'run':
            inds = INDS[act['inds'] - 1]

            def run():
                n = do_run(sim, act['ks'], act['n'], inds, act['im'])
                if not act['im']:
                    sim.run_im()
                return dict(g=fields.indexes(sim, lat), n=n, k=[
                    dict(k=k, modes=modes_of(sim, j, range(n), avg, KD, True,
                                             lat))
                    for j, k in enumerate(act['ks'])])
            if not ev('run', run):
                break
            cur = dict(ks=act['ks'], n=evs[-1]['n'], inds=inds)
            continue
        kind = act['kind']
        n = cur['n']
        minds = [m % n for m in act['minds']]
        if act['op'] == 'sub':
            if len(minds) == n:
                minds = minds + [0]
            ev('sub', lambda: dict(modes=modes_of(
                sim, kind, minds, avg, KD, False, lat)), kind=kind,
                minds=minds)
        elif act['op'] == 'again':
            def again():
                sim.run_im()
                return dict(modes=modes_of(sim, kind, range(n), avg, KD, True,
                                           lat))
            ev('again', again, kind=kind, minds=list(range(n)))
        elif act['op'] == 'back':
            def back():
                _, s2 = new()
                do_run(s2, [[-x for x in cur['ks'][kind]]], n, cur['inds'],
                       True)
                return dict(modes=modes_of(s2, 0, range(n), avg, KD, True,
                                           lat))
            ev('back', back, kind=kind)
        else:
            ev('golden', lambda: dict(ch=golden(
                sim, kind, minds[0], lays, avg_all, plainclad)), kind=kind)
    return evs


def run_mirror(case):
    """Structures with a mirror plane: parity and polarisation."""
    a = case[0]
    evs = [dict(op='base', id='base', sy='mirror')]
    for r in case[1:]:
        if r['op'] == 'end':
            break
        if r['t'] == 0:
            continue

        def f():
            n = c08.solve(a, r, 'none', 1).eigvecs[0].shape[0]
            sim = c08.solve(a, r, 'both', min(n, 10))
            sim.run_im()
            lat = sim.phc.lattice
            ms = modes_of(sim, 0, range(len(sim.freqs[0])), [1., 1.], 1, True,
                          lat)
            lab = np.ravel(sim.kz_symms)
            return dict(modes=[dict(m, lab=int(x)) for m, x in zip(ms, lab)])
        st, o = call(f)
        e = dict(op='mirror', ok=st == 'ok', id='mirror %s' % a['lat'],
                 m=r['m'])
        evs.append(dict(e, **(o if st == 'ok' else dict(err=o))))
    return evs


def body(c):
    lg.EDGES = (False, True)
    c.model('RadMC')
    c.model('RadMC', 'RadMC_unfolded', expect_violation='DarkBelowLightCone')
    cases = c.generate('RadGen', num=1200 if THOROUGH else 70, depth=12)
    traces = pmap(run_case, cases, chunk=1)
    mir = c.generate('MirrorGen', num=600 if THOROUGH else 40, depth=7)
    traces += pmap(run_mirror, mir, chunk=1)
    c.extra['golden_channels'] = sum(len(e.get('ch', [])) for t in traces
                                     for e in t)
    c.extra['open_orders'] = sum(len(m['gl']) + len(m['gu']) for t in traces
                                 for e in t for k in e.get('k', [])
                                 for m in k['modes'])
    c.sample(traces[0][1])
    c.judge('RadTrace', traces, batch=max(10, len(traces) // 8))


if __name__ == '__main__':
    main('C09', body)
