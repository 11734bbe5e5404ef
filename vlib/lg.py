"""Helpers around legume's public interface, shared by the drivers."""
import numpy as np
from vlib.core import call, fx, fxl, BIG
import os
import legume
from vlib.core import REPO

assert os.path.realpath(legume.__file__).startswith(
    os.path.realpath(REPO) + os.sep), 'legume is not imported from ' + REPO


def lattice(spec):
    if isinstance(spec, str):
        return legume.Lattice(spec)
    return legume.Lattice(list(spec[0]), list(spec[1]))


def shape(sp):
    """('circle', eps, x, y, r) / ('square', eps, x, y, a) / ('hex', ...) /
    ('poly', eps, xs, ys) / ('ellipse', eps, x, y, rx, ry, phi)"""
    k = sp[0]
    if k == 'circle':
        return legume.Circle(eps=sp[1], x_cent=sp[2], y_cent=sp[3], r=sp[4])
    if k == 'square':
        return legume.Square(eps=sp[1], x_cent=sp[2], y_cent=sp[3], a=sp[4])
    if k == 'hex':
        return legume.Hexagon(eps=sp[1], x_cent=sp[2], y_cent=sp[3], a=sp[4])
    if k == 'poly':
        return legume.Poly(eps=sp[1], x_edges=list(sp[2]), y_edges=list(sp[3]))
    if k == 'ellipse':
        return legume.Ellipse(eps=sp[1], x_cent=sp[2], y_cent=sp[3], rx=sp[4],
                              ry=sp[5], phi=sp[6])
    raise ValueError(k)


def phc(st):
    """st: dict(lat, eps_l, eps_u, layers=[(d, eps_b, [shapes])],
    clad=[[..],[..]] optional)"""
    lat = lattice(st['lat'])
    p = legume.PhotCryst(lat, eps_l=st.get('eps_l', 1.),
                         eps_u=st.get('eps_u', 1.))
    for d, eb, shapes in st['layers']:
        p.add_layer(d=d, eps_b=eb)
        for sp in shapes:
            p.add_shape(shape(sp))
    for i, shapes in enumerate(st.get('clad', [])):
        for sp in shapes:
            p.add_shape(shape(sp), cladding=i)
    return p


EDGES = (False, False)


def masked(freqs, thr=1e-4, edges=None):
    """True for modes whose frequency is separated from the neighbours' and
    from zero (where D = curl H / omega is not defined).  A mode at the end
    of the list may have a partner that was not returned: edges tells whether
    the list is cut at its lower and its upper end."""
    edges = EDGES if edges is None else edges
    f = np.asarray(freqs, float)
    ok = np.abs(f) > thr
    for i in range(len(f)):
        for j in range(len(f)):
            if i != j and abs(f[i] - f[j]) < thr:
                ok[i] = False
    if len(ok) and edges[0]:
        ok[0] = False
    if len(ok) and edges[1]:
        ok[-1] = False
    return ok
