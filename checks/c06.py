"""C06: which part of the spectrum a run returns."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import numpy as np
import legume
from vlib import lg, desc


def build(a, gm):
    p = desc.phc(a['v'])
    if a['kind'] == 'pwe':
        return legume.PlaneWaveExp(desc.layer(a['v']), gmax=gm)
    if a['kind'] == 'ese':
        return legume.ExcitonSchroedEq(p, z=.1, V_shapes=.3, a=3e-7, M=2e-31,
                                       E0=0., loss=0.,
                                       osc_str=[1., 1., 1.], gmax=gm, truncate_g=a['tr'])
    return legume.GuidedModeExp(p, gmax=gm, truncate_g=a['tr'])


def run(sim, a, n, req=None):
    """(values, labels, eigenvectors) per k-point"""
    ks = 2 * np.pi * np.array(a['ks'], float).T / 20
    if a['kind'] == 'pwe':
        sim.run(kpoints=ks, pol=a['pol'], numeig=n)
        f = sim.freqs
    elif a['kind'] == 'ese':
        sim.run(kpoints=ks, numeig_ex=n, verbose_ex=False)
        f = np.real(sim.eners)
    else:
        kw = dict(gmode_inds=list(a['gi']), numeig=n, compute_im=False,
                  verbose=False, gmode_step=1e-2, symm_thr=1e-5)
        if req is None and a['kind'] == 'mirror':
            kw.update(kz_symmetry='both', angles=np.zeros(ks.shape[1]))
        if req is not None:
            kw.update(eig_solver=req['sol'], eig_sigma=req['sg'] * .0137)
            if req['sy'] != 'none':
                kw.update(kz_symmetry=req['sy'], use_sparse=req['sp'],
                          angles=np.zeros(ks.shape[1]))
        sim.run(kpoints=ks, **kw)
        f = sim.freqs
    s = getattr(sim, 'kz_symms', [])
    V = [np.asarray(v) for v in sim.eigvecs]
    f = [np.asarray(x, float) for x in f]
    return f, [[int(x) for x in np.ravel(y)] for y in s], V


def dimension(sim, a, gm):
    """size of the basis at every k-point"""
    V = run(sim, a, 1)[2]
    return [v.shape[0] for v in V]


def gram(V, f=None):
    """largest deviation from orthonormality; with f, ARPACK's freedom in the
    subspace of equal frequencies is left out"""
    out = []
    for k, v in enumerate(V):
        d = np.abs(v.conj().T @ v - np.eye(v.shape[1]))
        if f is not None:
            w = np.abs(np.subtract.outer(f[k], f[k])) < 1e-4
            d[w & ~np.eye(len(f[k]), dtype=bool)] = 0
        out.append(d.max())
    return fxl(out, 10**8)


def run_case(case):
    a = case[0]
    gm = min(desc.gmax(a['v']), 2.)
    if a['kind'] in ('pwe', 'ese'):
        gm *= 2
    e = dict(a, id='full', ok=False)
    st, sim = call(build, a, gm)
    if st != 'ok':
        return [dict(e, err=sim)]
    st, dims = call(dimension, sim, a, gm)
    if st != 'ok':
        return [dict(e, err=dims)]
    # the number of guided modes depends on k: keep to the smallest
    if len(set(dims)) > 1:
        a = dict(a, ks=[a['ks'][int(np.argmin(dims))]])
        dims = [min(dims)]
    st, o = call(run, sim, a, dims[0])
    if st != 'ok':
        return [dict(e, err=o)]
    F, S, VF = o
    # modes at zero frequency have no definite direction
    evs = [dict(e, ok=True, f=[fxl(x) for x in F], symm=S, dim=dims,
                gram=gram(VF))]
    for r in case[1:]:
        if r['op'] == 'end':
            break
        d = dims[0]
        n = d + 3 if r['nf'] == 21 else max(1, -(-d * r['nf'] // 20))
        if r['nf'] == 10 and r['sy'] in ('odd', 'even') and S:
            # right at the number of modes of this parity
            n = min(sum(x == (-1 if r['sy'] == 'odd' else 1) for x in y)
                    for y in S) + r['sg'] % 2
        if r['sol'] == 'eigsh':
            n = min(n, d - 2)  # ARPACK's own limit
        n = max(n, 1)
        st, sim2 = call(build, a, gm)
        st, o = call(run, sim2, a, n, r)
        q = dict(r, n=n, ok=st == 'ok', sg=fx(r['sg'] * .0137),
                 id='%s %s n=%d of %d' % (r['sol'], r['sy'], n, d))
        if a['kind'] in ('pwe', 'ese'):
            q.update(sol='eigh', sy='none', sg=-BIG // 4 if a['kind'] == 'ese'
                     else 0)
        if st != 'ok':
            evs.append(dict(q, err=o))
            continue
        f, s, V = o
        try:
            ov = [[fxl(np.abs(VF[k].conj().T @ V[k][:, j])**2, 10**4)
                   for j in range(V[k].shape[1])] for k in range(len(V))]
        except Exception as ex:
            ov = [[] for x in f]
        evs.append(dict(q, f=[fxl(x) for x in f], symm=s, ov=ov,
                        gram=gram(V, f if r['sol'] == 'eigsh' else None)))
    return evs


def body(c):
    c.model('SelectMC')
    c.model('SelectMC', 'SelectMC_window', expect_violation='Right')
    cases = c.generate('SelectGen', num=3000 if THOROUGH else 220, depth=10)
    traces = pmap(run_case, cases, chunk=2)
    c.extra['requests'] = dict(
        accepted=sum(e['ok'] for t in traces for e in t[1:]),
        refused=sum(not e['ok'] for t in traces for e in t[1:]))
    c.sample([{k: v for k, v in e.items() if k not in ('ov', 'v', 'f')}
              for e in traces[0]])
    c.judge('SelectTrace', traces, batch=max(10, len(traces) // 8))


if __name__ == '__main__':
    main('C06', body)
