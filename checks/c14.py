"""C14: guided modes of layered slabs."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import numpy as np
import legume
from vlib import slab

TOL = 1e-6


def profile(AB, kap, eps, d, p):
    """samples per layer, jumps and norm of A exp(i kap z) + B exp(-i kap z)
    (claddings: from the interface, layers: from the middle)"""
    A, B = AB[:, 0], AB[:, 1]
    n = len(eps)

    def val(j, z, der=0):
        f = 1j * kap[j]
        return A[j] * f**der * np.exp(f * z) + \
            B[j] * (-f)**der * np.exp(-f * z)
    u, k, jump, sg = [], [], [], []
    scale = max(abs(val(j, z)) for j in range(1, n - 1)
                for z in np.linspace(-d[j - 1] / 2, d[j - 1] / 2, 21))
    dscale = max(abs(p[j] * val(j, z, 1)) for j in range(1, n - 1)
                 for z in np.linspace(-d[j - 1] / 2, d[j - 1] / 2, 21))
    # phase
    pts = [(j, z) for j in range(1, n - 1)
           for z in np.linspace(-d[j - 1] / 2, d[j - 1] / 2, 9)]
    big = max(pts, key=lambda q: abs(val(*q)))
    ph = np.exp(-1j * np.angle(val(*big)))
    im = 0.
    for j in range(n):
        if j in (0, n - 1):
            L = 2. / max(abs(kap[j]), 1e-3)
            z = np.linspace(-L, 0, 12) if j == 0 else np.linspace(0, L, 12)
        else:
            m = max(4, int(np.ceil(abs(kap[j]) * d[j - 1] / .35)))
            z = np.linspace(-d[j - 1] / 2, d[j - 1] / 2, m + 1)
        w = val(j, z) * ph / scale
        im = max(im, np.abs(w.imag).max())
        u.append(fxl(w.real, 10**4))
        sg += [int(np.sign(x)) for x in w.real if abs(x) > 1e-7]
        k.append(fx(2 * np.cos(kap[j] * (z[1] - z[0])).real, 10**4))
    for j in range(n - 1):
        za = 0. if j == 0 else d[j - 1] / 2
        zb = 0. if j == n - 2 else -d[j] / 2
        jump.append(fx(abs(val(j, za) - val(j + 1, zb)) / scale, 10**7))
        jump.append(fx(abs(p[j] * val(j, za, 1) - p[j + 1] *
                           val(j + 1, zb, 1)) / dscale, 10**7))
    # the wave that grows outwards
    jump.append(fx(abs(A[0]) / scale, 10**7))
    jump.append(fx(abs(B[-1]) / scale, 10**7))
    return u, k, jump, im, val, sg


def norm(val, kap, eps, d, w, pol):
    """integral of |H|^2: for TE, coefficients are those of E / omega, and
    the integral of |H|^2 is that of eps |E|^2"""
    x, wt = np.polynomial.legendre.leggauss(40)
    te = pol.lower() == 'te'
    out = 0.
    for j in range(len(eps)):
        if j in (0, len(eps) - 1):
            q = abs(kap[j])
            s = abs(val(j, 0.))**2 / 2 / q
        else:
            h = d[j - 1] / 2
            s = np.sum(wt * h * np.abs(val(j, x * h))**2)
        out += s * (eps[j] * w**2 if te else 1.)
    return out


def run_case(case):
    a = case[0]
    eps = np.array([a['el']] + [l['eps'] for l in a['layers']] + [a['eu']],
                   float)
    d = np.array([l['d'] / 20 for l in a['layers']])
    evs = [dict(op='base', id='base')]
    for act in case[1:]:
        if act['op'] == 'end':
            break
        gs = np.array(act['gs'], float) / 10
        pol, step = act['pol'], act['step'] * 1e-3
        p = slab.weight(eps, pol)
        gin, ein, din = gs.copy(), eps.copy(), d.copy()
        st, o = call(legume.guided_modes, gin, ein, din, n_modes=act['n'],
                     step=step, tol=TOL, pol=pol)
        e = dict(op='search', ok=st == 'ok', gs=act['gs'],
                 id='%s %s gs=%s n=%d' % (pol, list(eps), act['gs'], act['n']))
        if st != 'ok':
            evs.append(dict(e, err=o, case=case))
            continue
        at = []
        if not (np.array_equal(gin, gs) and np.array_equal(ein, eps) and
                np.array_equal(din, d)):
            o = ([], [])
        for g, oms, abs_ in zip(gs, *o):
            lo = g / np.sqrt(max(eps[1:-1]))
            hi = g / np.sqrt(max(eps[0], eps[-1]))
            lo1, hi1 = lo * (1 + TOL), hi * (1 - TOL)
            r = slab.roots(g, eps, d, pol, lo, hi) if lo1 < hi1 else []
            sep = bool(np.all(np.diff(r) > 1.05 * step))
            x = dict(om=fxl(oms, 10**7), n=act['n'], lo=fx(lo, 10**7),
                     hi=fx(hi, 10**7), sep=sep,
                     sl=slab.signs(hi * (1 - 3 * TOL), g, eps, d, pol)
                     if lo1 < hi1 else [1],
                     sh=slab.signs(hi, g, eps, d, pol) if lo1 < hi1 else [1],
                     m=[])
            # a mode at the very ends of the range may be left out
            if r and (r[0] < lo * (1 + 3 * TOL)):
                x['sep'] = False
            for w, AB in zip(oms, abs_):
                w = float(w)
                AB = np.asarray(AB).reshape(len(eps), 2)
                kap = np.sqrt(np.asarray(eps * w**2 - g**2, complex))
                # the solver integrates upwards from the lower cladding: its
                # rounding grows with the thickness of evanescent layers
                amp = float(np.sum(np.abs(kap[1:-1].imag) * d))
                u, k, jump, im, val, sg = profile(AB, kap, eps, d, p)
                x['m'].append(dict(
                    below=slab.signs(w * (1 - 1e-7), g, eps, d, pol),
                    above=slab.signs(w * (1 + 1e-7), g, eps, d, pol),
                    u=u, k=k, sg=sg, dif=jump, thick=bool(amp > 7), im=fx(im, 10**7),
                    norm=fx(norm(val, kap, eps, d, w, pol), 10**7)))
            at.append(x)
        evs.append(dict(e, at=at))
    return evs


def body(c):
    c.model('SlabModesMC')
    c.model('SlabModesMC', 'SlabModesMC_bound', expect_violation='AllFound')
    cases = c.generate('SlabGen', num=2500 if THOROUGH else 120, depth=8)
    traces = pmap(run_case, cases, chunk=1)
    xs = [x for t in traces for e in t for x in e.get('at', [])]
    c.extra['wave_vectors'] = len(xs)
    c.extra['modes'] = sum(len(x['m']) for x in xs)
    c.extra['thick'] = sum(m['thick'] for x in xs for m in x['m'])
    c.extra['largest_jump'] = max(max(m['dif']) for x in xs for m in x['m']
                                  if not m['thick'])
    c.extra['complete_judged'] = sum(x['sep'] for x in xs)
    c.sample(traces[0][1])
    c.judge('SlabTrace', traces, batch=max(10, len(traces) // 8))


if __name__ == '__main__':
    main('C14', body)
