"""C11: numerical options and backends do not change the physics."""
import sys, os, io, contextlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import numpy as np
import legume
from vlib import lg, desc, fields, slab
import checks.c05 as c05
from checks.c07 import OSC

GM = [(1.5, 1.53, 1.47), (1.37, 1.21, 1.63), (1.63, 1.77, 1.07)]
NEAR = .5


def build(a, tr):
    gm = desc.gmax(a['v'], GM[a['gm'] - 1] + (1.83, 1.9))
    p = desc.phc(a['v'])
    if a['kind'] == 'pwe':
        return legume.PlaneWaveExp(desc.layer(a['v']), gmax=gm)
    if a['kind'] == 'ese':
        return legume.ExcitonSchroedEq(p, z=.1, gmax=gm, truncate_g=tr,
                                       osc_str=OSC, **c05.QW)
    if a['kind'] == 'gme':
        return legume.GuidedModeExp(p, gmax=gm, truncate_g=tr)
    p.add_qw(z=p.layers[0].d * .3, osc_str=OSC, **c05.QW)
    return legume.HopfieldPol(p, gmax=gm, truncate_g=tr)


def inner(ob):
    return ob.gme if isinstance(ob, legume.HopfieldPol) else ob


def same_basis(a):
    """Do both truncations give the same reciprocal vectors?"""
    if a['kind'] == 'pwe':
        return False
    s = []
    for tr in ('abs', 'tbt'):
        ob = build(a, tr)
        ob = inner(ob)
        s.append({tuple(x) for x in fields.indexes(ob, ob.phc.lattice)})
    return s[0] == s[1]


def run(ob, a, r):
    ks = 2 * np.pi * np.array(a['ks'], float).T / 20
    g = dict(gmode_inds=list(a['gi']), numeig=a['ne'], verbose=r['verb'],
             gmode_step=r['step'] / 1000, gmode_tol=10.**-r['tol'],
             compute_im=r['late'] == 'inline', gradients=r['grad'],
             eig_solver=r['sol'], eig_sigma=a['sg'] / 10,
             use_sparse=r['sp'], gmode_compute=r['gc'], gmode_npts=r['npts'],
             eps_eff=a['eff'], symm_thr=1e-4, only_gmodes=a['only'])
    if a['sy'] != 'none':
        g.update(kz_symmetry=a['sy'], angles=np.zeros(ks.shape[1]))
    if a['kind'] == 'gme':
        ob.run(kpoints=ks, **g)
        if r['late'] == 'run_im':
            ob.run_im()
    elif a['kind'] == 'pwe':
        ob.run(kpoints=ks, pol=a['pol'], numeig=a['ne'])
    elif a['kind'] == 'ese':
        ob.run(kpoints=ks, numeig_ex=a['ne'], verbose_ex=r['verb'])
    else:
        g.update(eig_solver='eigh', compute_im=True, eig_sigma=0.)
        ob.run(gme_options=g, exc_options=dict(numeig_ex=2, verbose_ex=False),
               kpoints=ks, verbose=r['verb'])


def field(f, z=None):
    return [float(np.sum(np.abs(c)**2)) for c in f]


def results(ob, a, r):
    kind = a['kind']
    out = []
    if kind == 'pol':
        for ik in range(len(ob.eners)):
            E = np.asarray(ob.eners[ik])
            ok = lg.masked(E, 1e-3)
            out.append(dict(
                fr=fxl(E), fi=fxl(np.where(ok, ob.eners_im[ik], 0), 10**9),
                lab=[len(E)], q=[], md=fxl(np.r_[
                    np.where(ok, ob.fractions_ex[ik], 0),
                    np.where(ok, ob.fractions_ph[ik], 0)], 10**6)))
        return out
    F = np.asarray(np.real(ob.eners if kind == 'ese' else ob.freqs))
    for ik in range(len(F)):
        ok = lg.masked(F[ik], 2e-3)
        x = dict(fr=fxl(F[ik]), fi=[], lab=[], q=[], md=[])
        V = np.asarray(ob.eigvecs[ik])
        if kind != 'gme':
            md = []
            for m in np.flatnonzero(ok)[:3]:
                if kind == 'ese':
                    f, _, _ = ob.get_wavef_xy(ik, int(m), Nx=3, Ny=3)
                    md += list(np.ravel(np.abs(f)**2))
                else:
                    f, _, _ = ob.get_field_xy('d', ik, int(m), Nx=3, Ny=3)
                    md += list(np.ravel(sum(np.abs(v)**2 for v in f.values())))
            x['md'] = fxl(md, 10**6)
            out.append(x)
            continue
        if r['late'] == 'rad':
            fi, rc, rv = ob.compute_rad(ik, list(range(F.shape[1])))
            fi = np.ravel(fi)
        else:
            fi = np.ravel(ob.freqs_im[ik])
            rc = {c: ob.rad_coup[c][ik] for c in ob.rad_coup}
            rv = {c: ob.rad_gvec[c][ik] for c in ob.rad_gvec}
        x['fi'] = fxl(np.where(ok, np.asarray(fi, float), 0), 10**9)
        if len(ob.kz_symms):
            x['lab'] = [int(s) if o else 0 for s, o in
                        zip(np.ravel(ob.kz_symms[ik]), ok)]
        md, q = [], []
        lays = ob.phc.layers
        for m in np.flatnonzero(ok)[:4]:
            m = int(m)
            for j, lay in enumerate(lays):
                md += field(ob.ft_field_xy('H', ik, m, lay.z_min + lay.d * .4))
            md += field(ob.ft_field_xy('E', ik, m, lays[0].z_min - .3))
            q += [float(np.sqrt(np.sum(np.abs(rc[c][m])**2)))
                  for c in ('l_te', 'l_tm', 'u_te', 'u_tm')]
            q += [int(np.shape(rv[c][m])[1]) for c in 'lu']
            f, _, _ = ob.get_field_xy('h', ik, m, lays[-1].z_min + .1, Nx=3,
                                      Ny=2)
            q += list(np.ravel(sum(np.abs(v)**2 for v in f.values())))
            f, _, _ = ob.get_field_xz('d', ik, m, .2, Nx=2, Nz=3)
            q += list(np.ravel(sum(np.abs(v)**2 for v in f.values())) * .1)
        x['md'], x['q'] = fxl(md, 10**6), fxl(q, 10**6)
        out.append(x)
    return out


def cutoffs(ob, a, r):
    """Spacing of the table, and the k-points where a guided mode asked for
    appears next to one of the |k+G|."""
    gm = inner(ob)
    if r['gc'] == 'exact' or a['kind'] not in ('gme', 'pol'):
        return 0, [False] * len(a['ks'])
    ks = 2 * np.pi * np.array(a['ks'], float) / 20
    G = np.asarray(gm.gvec).T
    gmax = np.hypot(*G.T).max() + np.hypot(*ks.T).max()
    h = gmax / (r['npts'] - 1)
    lays = [gm.phc.claddings[0]] + gm.phc.layers + [gm.phc.claddings[1]]
    eps = [float(l.eps_avg if a['eff'] == 'average' else l.eps_b) for l in lays]
    d = [float(l.d) for l in gm.phc.layers]
    cl = max(eps[0], eps[-1])

    def count(g, pol):
        if max(eps[1:-1]) <= cl:
            return 0
        return slab.nodes(g / np.sqrt(cl), g, eps, d, pol)
    cut = []
    for k in ks:
        bad = False
        for g in np.hypot(*(k + G).T):
            for i in a['gi']:
                p, n = ('te', 'tm')[i % 2], i // 2
                lo = g - max(12 * h, NEAR)
                bad |= g < 12 * h or lo > 0 and (count(lo, p) > n) != (count(g + h, p) > n)
        cut.append(bool(bad))
    return int(np.ceil(h * 1e4)), cut


def run_case(case):
    a = case[0]
    a['ks'] = [list(k) for k in a['ks']]
    if a['kind'] == 'pol':
        a['ks'] = [k if k != [0, 0] else [3, 0] for k in a['ks']]
        a['sg'], a['only'] = 0, False
    if a['only']:
        a['tr0'] = 'abs'
    lg.EDGES = (a['sg'] != 0 and a['kind'] == 'gme', a['kind'] != 'pol')
    same = same_basis(a)
    evs = [dict(op='base', id='base')]
    ob = cur = None
    size = 10**6
    for act in case[1:]:
        if act['op'] == 'end':
            break
        r = dict(act['r'])
        if not same or a['only']:
            r['tr'] = a['tr0']
        if a['sg'] != 0 or a['sy'] != 'none' or size < a['ne'] + 2:
            # the solvers take different distances to a target other than
            # zero, and ARPACK needs two vectors more than modes
            r['sol'] = 'eigh'
        h, cut = 0, []

        def go():
            nonlocal ob, cur, h, cut, size
            legume.set_backend(r['bk'])
            if ob is None or r['new'] or cur != (r['bk'], r['tr']):
                ob, cur = build(a, r['tr']), (r['bk'], r['tr'])
            with contextlib.redirect_stdout(io.StringIO()):
                while True:
                    st, o = call(run, ob, a, r)
                    if st == 'ok':
                        break
                    if first and a['ne'] > 1 and 'Requested' in o:
                        # the basis has fewer modes
                        a['ne'] -= 1
                        continue
                    raise RuntimeError(o)
            h, cut = cutoffs(ob, a, r)
            if a['kind'] == 'gme':
                size = min(np.shape(V)[0] for V in ob.eigvecs)
            return results(ob, a, r)
        first = len(evs) == 1
        st, o = call(go)
        r['h'] = h
        e = dict(op='run', r=r, cut=cut, ok=st == 'ok', id='%s %s' % (
            a['kind'], {k: v for k, v in r.items() if k in
                        ('bk', 'sol', 'gc', 'tr', 'late', 'sp')}))
        evs.append(dict(e, res=o) if st == 'ok' else dict(e, err=o, res=[]))
    legume.set_backend('numpy')
    return evs


def body(c):
    c.model('RoutesMC')
    c.model('RoutesMC', 'RoutesMC_short', expect_violation='Good')
    cases = c.generate('RoutesGen', num=1200 if THOROUGH else 48, depth=10)
    traces = pmap(run_case, cases, chunk=1)
    rs = [e for t in traces for e in t if e['op'] == 'run']
    c.extra['runs'] = len(rs)
    c.extra['by_route'] = {k: sum(e['r'][f] == k for e in rs) for f, k in (
        ('bk', 'autograd'), ('sol', 'eigsh'), ('gc', 'interp'), ('tr', 'tbt'))}
    c.extra['interp_k_judged'] = sum(not x for e in rs if e['r']['gc'] ==
                                     'interp' for x in e['cut'])
    c.sample([e['r'] for e in traces[0] if e['op'] == 'run'])
    c.judge('RoutesTrace', traces, batch=max(8, len(traces) // 8))


if __name__ == '__main__':
    main('C11', body)
