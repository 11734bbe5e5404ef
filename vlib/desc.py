"""Builds real legume objects from the descriptions of Equiv.tla."""
import numpy as np
import legume

U, UZ = 60., 100.


UNITS = [1., 350., 1 / 300., 40., 1 / 17.]


def units(v):
    """the period in the unit of length"""
    return UNITS[v.get('un', 0)]


def scales(v):
    return v['ln'] / v['ld'] * units(v), (v['en'] / v['ed'])**2


def shape(sh, L, E):
    k, e = sh['k'], sh['eps'] * E
    x, y, r = sh['x'] / U * L, sh['y'] / U * L, sh['r'] / U * L
    if k == 'circle':
        return legume.Circle(eps=e, x_cent=x, y_cent=y, r=r)
    if k == 'square':
        return legume.Square(eps=e, x_cent=x, y_cent=y, a=r)
    if k == 'hex':
        return legume.Hexagon(eps=e, x_cent=x, y_cent=y, a=r)
    if k == 'ellipse':
        return legume.Ellipse(eps=e, x_cent=x, y_cent=y, rx=sh['rx'] / U * L,
                              ry=sh['ry'] / U * L,
                              phi=np.arctan2(sh['s'], sh['c']))
    return legume.Poly(eps=e, x_edges=np.array(sh['xs']) / U * L,
                       y_edges=np.array(sh['ys']) / U * L)


def lattice(v):
    L, E = scales(v)
    a = np.array(v['s']['lat']) / U * L
    if list(a) == [1, 0, 0, 1]:
        return legume.Lattice('square')
    return legume.Lattice(list(a[:2]), list(a[2:]))


def phc(v):
    L, E = scales(v)
    s = v['s']
    p = legume.PhotCryst(lattice(v), eps_l=s['el'] * E, eps_u=s['eu'] * E)
    for lay in s['layers']:
        p.add_layer(d=lay['d'] / UZ * L, eps_b=lay['eps'] * E)
        for sh in lay['shapes']:
            p.add_shape(shape(sh, L, E))
    for i in (0, 1):
        for sh in s['clad'][i]:
            p.add_shape(shape(sh, L, E), cladding=i)
    return p


def layer(v, i=0):
    L, E = scales(v)
    lay = v['s']['layers'][i]
    l = legume.ShapesLayer(lattice(v), 0, lay['d'] / UZ * L,
                           eps_b=lay['eps'] * E)
    for sh in lay['shapes']:
        l.add_shape(shape(sh, L, E))
    return l


def kpoint(v, den=20.):
    L, E = scales(v)
    return 2 * np.pi * np.array(v['k'], float)[:, None] / den / L


def gmax(v, choices=(1.37, 1.53, 1.21, 1.63, 1.07)):
    """A cutoff that is not close to the length of a reciprocal vector."""
    a = np.array(v['s']['lat']).reshape(2, 2) / U
    b = np.linalg.inv(a).T
    n = np.arange(-12, 13)
    g = np.array([i * b[0] + j * b[1] for i in n for j in n])
    r = np.hypot(*g.T)
    nb = np.concatenate([np.arange(1, 6) * np.hypot(*b[0]),
                         np.arange(1, 6) * np.hypot(*b[1])])
    for c in choices:
        if min(np.abs(r - c).min(), np.abs(nb - c).min()) > 1e-3:
            return c / scales(v)[0]
    raise ValueError('no cutoff')
