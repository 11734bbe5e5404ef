"""Observations of the fields of a mode, for FieldTrace.tla."""
import numpy as np
import legume
from vlib.core import fx, fxl
from vlib import desc


def indexes(sim, lat):
    A = np.array([lat.a1, lat.a2], float)
    return [[int(a), int(b)]
            for a, b in np.rint(A @ np.asarray(sim.gvec) / 2 / np.pi).T]


def kd(v):
    L = np.array(v['s']['lat']) // 5
    return 20 * abs(int(L[0] * L[3] - L[1] * L[2]))


def pack(F, s):
    """list over G of [re x, im x, re y, im y, re z, im z]"""
    F = np.array([np.asarray(c, complex) for c in F])
    a = np.stack([F[0].real, F[0].imag, F[1].real, F[1].imag, F[2].real,
                  F[2].imag], axis=1) * s
    return [fxl(r, 1) for r in a]


def derivative(f, h):
    """f(offset) -> 3 arrays; fourth order central difference"""
    g = [np.array(f(i * h)) for i in (-2, -1, 1, 2)]
    return (g[0] - 8 * g[1] + 8 * g[2] - g[3]) / (12 * h)


def eps_matrix(sim, lay):
    """eps(G-G') of a layer over the basis of the simulation"""
    g = np.asarray(sim.gvec)
    n = g.shape[1]
    d = (g[:, :, None] - g[:, None, :]).reshape(2, -1)
    return np.asarray(lay.compute_ft(d)).reshape(n, n)


def series(F, g, x, y):
    """sum_G F exp(iG.r) over the mesh of x and y"""
    X, Y = np.meshgrid(x, y)
    e = np.exp(1j * (g[0][:, None, None] * X + g[1][:, None, None] * Y))
    return np.tensordot(np.asarray(F), e, (0, 0))


def cplx(a, s=10**7):
    a = np.asarray(a).ravel()
    return fxl(a.real, s) + fxl(a.imag, s)


def pair(what, a, b, tol=50, s=10**7):
    return dict(what=what, a=cplx(a, s), b=cplx(b, s), tol=tol)
