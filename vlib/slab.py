"""Waves of a layered slab, independent of legume: u'' = (g^2 - eps w^2) u in
every layer, u and p u' continuous with p = 1 (TE, u = E) or 1/eps (TM, u =
H), starting from the decaying wave of the lower cladding."""
import numpy as np


def weight(eps, pol):
    return np.ones(len(eps)) if pol.lower() == 'te' else 1 / np.asarray(eps)


def wave(w, g, eps, d, pol, per=.35):
    """The wave at points so close that no two zeros lie between neighbours,
    from far below to far above; signs matter and magnitudes up to positive
    factors."""
    eps = np.asarray(eps, float)
    p = weight(eps, pol)
    u, du = 1., np.sqrt(max(g**2 - eps[0] * w**2, 0.))
    out = [1.]
    for j in range(1, len(eps) - 1):
        du = du * p[j - 1] / p[j]
        k2 = eps[j] * w**2 - g**2
        n = max(2, int(np.ceil(np.sqrt(abs(k2)) * d[j - 1] / per)))
        h = d[j - 1] / n
        x = np.sqrt(complex(k2))
        c = np.cos(x * h).real
        s = (np.sin(x * h) / x).real if abs(x * h) > 1e-9 else h
        for i in range(n):
            u, du = u * c + du * s, -k2 * u * s + du * c
            out.append(u)
        m = np.hypot(u, du)
        u, du = u / m, du / m
    du = du * p[-2] / p[-1]
    out.append(du + np.sqrt(max(g**2 - eps[-1] * w**2, 0.)) * u)
    return out


def signs(w, g, eps, d, pol, per=.35):
    return [-1 if x < 0 else 1 for x in wave(w, g, eps, d, pol, per)]


def nodes(w, g, eps, d, pol):
    s = signs(w, g, eps, d, pol)
    return sum(a != b for a, b in zip(s[:-1], s[1:]))


def roots(g, eps, d, pol, lo, hi, nmax=12):
    """All guided frequencies between lo and hi: isolated by the number of
    nodes, then located by the wave far above."""
    from scipy.optimize import brentq
    n0 = nodes(lo, g, eps, d, pol)
    n = min(nodes(hi, g, eps, d, pol), nmax)
    seen = {lo: n0}
    out = []
    for i in range(n0, n):
        a = max(w for w in seen if seen[w] <= i)
        up = [w for w in seen if seen[w] == i + 1 and w > a]
        b = min(up) if up else hi
        nb = seen.get(b, n0 + nmax)
        if not up:
            nb = nodes(hi, g, eps, d, pol)
        na = seen[a]
        for _ in range(60):
            if na == i and nb == i + 1:
                break
            m = (a + b) / 2
            nm = seen[m] = nodes(m, g, eps, d, pol)
            if nm > i:
                b, nb = m, nm
            else:
                a, na = m, nm
        fa, fb = (wave(x, g, eps, d, pol)[-1] for x in (a, b))
        out.append(brentq(lambda x: wave(x, g, eps, d, pol)[-1], a, b,
                          xtol=1e-14, rtol=1e-14) if fa * fb < 0
                   else (a + b) / 2)
    return out
