"""C02: Fourier components of shapes and layers."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import numpy as np
import legume
from vlib import lg

U = 60.
NQ = 260 if THOROUGH else 160
LATS = [((1, 0), (0, 1), 1, 1), ((1, 0), (.3, 2), 2, 1),
        ((1.5, 0), (-.4, 1), 3, 2), ((1, 1), (1, -1), 2, 1)]


class Rep:
    """A region the driver knows how to transform itself."""

    def __init__(self, sh):
        self.k = sh['k']
        self.eps = float(sh['eps'])
        self.x, self.y = sh['x'] / U, sh['y'] / U
        self.r = sh['r'] / U
        if self.k == 'ellipse':
            self.rx, self.ry = sh['r'] / U, sh['ry'] / U
            self.phi = sh['rot'] * np.pi / 12
        if self.k == 'poly':
            self.v = np.array([sh['xs'], sh['ys']], float) / U + np.array(
                [[self.x], [self.y]])
            self.convex = sh['convex']
        if self.k == 'fourier':
            self.fa = np.array(sh['fa']) / U
            self.fb = np.array(sh['fb']) / U

    def verts(self):
        if self.k == 'poly':
            return self.v
        s = self.make()
        return np.array([s.x_edges, s.y_edges], float)[:, :-1]

    def make(self):
        k, e = self.k, self.eps
        if k == 'circle':
            return legume.Circle(eps=e, x_cent=self.x, y_cent=self.y, r=self.r)
        if k == 'ellipse':
            return legume.Ellipse(eps=e, x_cent=self.x, y_cent=self.y,
                                  rx=self.rx, ry=self.ry, phi=self.phi)
        if k == 'square':
            return legume.Square(eps=e, x_cent=self.x, y_cent=self.y, a=self.r)
        if k == 'hex':
            return legume.Hexagon(eps=e, x_cent=self.x, y_cent=self.y, a=self.r)
        if k == 'fourier':
            return legume.FourierShape(eps=e, x_cent=self.x, y_cent=self.y,
                                       f_as=self.fa, f_bs=self.fb, npts=90)
        return legume.Poly(eps=e, x_edges=self.v[0], y_edges=self.v[1])

    def topoly(self):
        if self.k in ('hex', 'fourier'):
            v = self.verts()
            keep = [i for i in range(v.shape[1]) if np.hypot(
                *(v[:, i] - v[:, i - 1])) > 1e-9]
            self.v, self.k, self.convex = v[:, keep], 'poly', False

    def move(self, d):
        self.x += d[0]
        self.y += d[1]
        if self.k == 'poly':
            self.v = self.v + np.array(d, float)[:, None]

    def turn(self):
        self.topoly()
        self.x, self.y = -self.y, self.x
        if self.k == 'poly':
            self.v = np.array([-self.v[1], self.v[0]])
        if self.k == 'ellipse':
            self.phi += np.pi / 2

    def mirror(self):
        if self.k == 'fourier':
            self.topoly()
        self.x = -self.x
        if self.k == 'poly':
            self.v = np.array([-self.v[0], self.v[1]])[:, ::-1]
        if self.k == 'ellipse':
            self.phi = -self.phi

    def halve(self):
        self.x, self.y, self.r = self.x / 2, self.y / 2, self.r / 2
        if self.k == 'poly':
            self.v = self.v / 2
        if self.k == 'ellipse':
            self.rx, self.ry = self.rx / 2, self.ry / 2
        if self.k == 'fourier':
            self.fa, self.fb = self.fa / 2, self.fb / 2


def gv(n):
    return np.array(n, float).T * np.pi / 2


def vals(sh, n, scale=10**8):
    f = np.asarray(sh.compute_ft(gv(n)))
    return fxl(np.real(f), scale), fxl(np.imag(f), scale)


def obs(sh, n, tol=60):
    re, im = vals(sh, n)
    return dict(ok=True, re=re, im=im, area=fx(sh.area), tol=tol)


FAIL = dict(ok=False, re=[], im=[], area=0, tol=60)


def inside_sums(sh, n, rep):
    if hasattr(sh, 'x_edges'):
        xs, ys = np.asarray(sh.x_edges), np.asarray(sh.y_edges)
        lo, hi = (xs.min(), ys.min()), (xs.max(), ys.max())
    else:
        R = rep.r if rep.k == 'circle' else max(rep.rx, rep.ry)
        lo, hi = (rep.x - R, rep.y - R), (rep.x + R, rep.y + R)
    pad = .13 * max(hi[0] - lo[0], hi[1] - lo[1])
    w, h = hi[0] - lo[0] + 2 * pad, hi[1] - lo[1] + 2 * pad
    x = lo[0] - pad + (np.arange(NQ) + .5) / NQ * w
    y = lo[1] - pad + (np.arange(NQ) + .5) / NQ * h
    X, Y = np.meshgrid(x, y)
    I = np.asarray(sh.is_inside(X, Y)).astype(bool)
    dA = w * h / NQ**2
    g = gv(n)
    F = [np.sum(np.exp(-1j * (a * X[I] + b * Y[I]))) * dA for a, b in g.T]
    # cells cut by the boundary: at most about half of the perimeter / cell size
    tol = 5 * max(w, h) / NQ * max(w, h)
    gmax = np.abs(g).max()
    tol += np.sum(I) * dA * (gmax * max(w, h) / NQ)**2 / 12
    return F, np.sum(I) * dA, tol


def run_shape(case):
    a = case[0]
    n = [list(v) for v in a['n']]
    rep = Rep(a['sh'])
    st, sh = call(rep.make)
    tag = '%s' % a['sh']['k']
    if st != 'ok':
        return [dict(op='failed', id=tag, err=sh)]

    def base():
        sh = rep.make()
        o = obs(sh, n)
        o['nre'], o['nim'] = vals(sh, [[-v[0], -v[1]] for v in n])
        o['zero'] = fx(np.real(sh.compute_ft(np.array([[0.], [0.]])))[0])
        o['twice'] = [a['sh']['xs'], a['sh']['ys']] if rep.k == 'poly' else []
        if rep.k == 'square':
            r = a['sh']['r']
            o['twice'] = [[0, r, r, 0], [0, 0, r, r]]
        o['ab'] = 0
        if rep.k == 'circle':
            o['ab'] = a['sh']['r']**2
        if rep.k == 'ellipse':
            o['ab'] = a['sh']['r'] * a['sh']['ry']
        return o
    st, o = call(base)
    if st != 'ok':
        return [dict(op='failed', id=tag, err=o)]
    evs = [dict(op='shape', n=n, id=tag, **o)]
    for j, act in enumerate(case[1:]):
        op = act['op']
        if op == 'end':
            break
        e = dict(op=op, id='%s:%s' % (tag, op))
        if op == 'move':
            e['d'] = act['d']
            rep.move(act['d'])
            go = lambda: obs(rep.make(), n)
        elif op == 'turn':
            rep.turn()
            n = [[-v[1], v[0]] for v in n]
            go = lambda: obs(rep.make(), n)
        elif op == 'mirror':
            rep.mirror()
            n = [[-v[0], v[1]] for v in n]
            go = lambda: obs(rep.make(), n)
        elif op == 'halve':
            if max(abs(x) for v in n for x in v) > 8:
                continue
            rep.halve()
            n = [[2 * v[0], 2 * v[1]] for v in n]
            go = lambda: obs(rep.make(), n)
        elif op == 'indicator':
            def go():
                F, A, tol = inside_sums(rep.make(), n, rep)
                return dict(ok=True, re=fxl(np.real(F)), im=fxl(np.imag(F)),
                            area=fx(A), tol=int(tol * 1e8) + 1)
        elif op == 'alias':
            # the same region described by another kind of shape
            def go():
                if rep.k == 'circle':
                    s = legume.Ellipse(eps=2., x_cent=rep.x, y_cent=rep.y,
                                       rx=rep.r, ry=rep.r, phi=.1 * act['ang'])
                elif rep.k == 'ellipse':
                    s = legume.Ellipse(eps=2., x_cent=rep.x, y_cent=rep.y,
                                       rx=rep.ry, ry=rep.rx,
                                       phi=rep.phi + np.pi / 2)
                else:
                    v = rep.verts()
                    s = legume.Poly(eps=2., x_edges=list(v[0]),
                                    y_edges=list(v[1]))
                return obs(s, n)
        elif op == 'refine':
            if rep.k in ('circle', 'ellipse'):
                continue
            def go():
                v = rep.verts()
                i = act['ang'] % v.shape[1]
                mid = .3 * v[:, i] + .7 * v[:, (i + 1) % v.shape[1]]
                w = np.insert(v, i + 1, mid, axis=1)
                w = np.roll(w, act['ang'] % 3, axis=1)
                return obs(legume.Poly(eps=1., x_edges=w[0], y_edges=w[1]), n)
        elif op == 'order':
            # wave vectors in another order and as nested lists
            def go():
                s = rep.make()
                g = gv(n)
                f = np.asarray(s.compute_ft(g[:, ::-1].tolist()))[::-1]
                return dict(ok=True, re=fxl(np.real(f)), im=fxl(np.imag(f)),
                            area=fx(s.area), tol=60)
        elif op == 'pieces':
            if not (rep.k == 'square' or rep.k == 'hex' or
                    (rep.k == 'poly' and rep.convex)):
                continue
            v = rep.verts()
            if rep.k == 'hex':
                v = v[:, :6]
            m = v.shape[1]
            if m < 4:
                continue
            c = 2 + act['ang'] % (m - 3)
            def go():
                p = legume.Poly(eps=1., x_edges=v[0, :c + 1],
                                y_edges=v[1, :c + 1])
                ix = list(range(c, m)) + [0]
                q = legume.Poly(eps=1., x_edges=v[0, ix], y_edges=v[1, ix])
                o = obs(p, n)
                o['re2'], o['im2'] = vals(q, n)
                return o
        elif op == 'spin':
            if rep.k in ('circle', 'ellipse'):
                continue
            th = act['ang'] * .37 - 5
            def go():
                # only for shapes whose centre of mass the driver knows
                v = rep.verts()
                x, y = v
                x1, y1 = np.roll(x, -1), np.roll(y, -1)
                cr = x * y1 - x1 * y
                cx = np.sum((x + x1) * cr) / 3 / np.sum(cr)
                cy = np.sum((y + y1) * cr) / 3 / np.sum(cr)
                s0, s1 = rep.make(), rep.make()
                s1 = s1.rotate(th)
                R = np.array([[np.cos(th), -np.sin(th)],
                              [np.sin(th), np.cos(th)]])
                g = gv(n)
                c = np.array([cx, cy])
                f0 = np.asarray(s0.compute_ft(g)) * np.exp(1j * c @ g)
                f1 = np.asarray(s1.compute_ft(R @ g)) * np.exp(1j * c @ (R @ g))
                pts = np.random.RandomState(act['ang']).randn(2, 60) * .25
                i0 = s0.is_inside(pts[0] + cx, pts[1] + cy)
                q = R @ pts
                i1 = s1.is_inside(q[0] + cx, q[1] + cy)
                a1 = np.real(s1.compute_ft(np.zeros((2, 1))))[0]
                return dict(ok=True, re=fxl(np.real(f1)), im=fxl(np.imag(f1)),
                            re0=fxl(np.real(f0)), im0=fxl(np.imag(f0)),
                            area=fx(a1), ins=[bool(b) for b in i1],
                            ins0=[bool(b) for b in i0])
        st, o = call(go)
        if st != 'ok':
            o = dict(FAIL, err=o, re2=[], im2=[])
        e.update(o)
        evs.append(e)
    return evs


def run_layer(case):
    a = case[0]
    n = [list(v) for v in a['n']]
    a1, a2, p, q = LATS[a['lat'] - 1]
    def go():
        lat = legume.Lattice(list(a1), list(a2))
        return legume.ShapesLayer(lat, 0, 1., eps_b=float(a['epsb']))
    st, lay = call(go)
    evs = [dict(op='layer', n=n, p=p, q=q, epsb=a['epsb'], ok=st == 'ok',
                id='layer')]
    if st != 'ok':
        return evs
    S = 10**7
    for act in case[1:]:
        if act['op'] == 'end':
            break
        def go():
            shs = [Rep(s).make() for s in act['shs']]
            lay.add_shape(shs if len(shs) > 1 else shs[0])
            fr, fi = zip(*[vals(s, n, S) for s in shs])
            re, im = vals(lay, n, S)
            return dict(ok=True, fre=list(fr), fim=list(fi),
                        areas=fxl([s.area for s in shs], S), re=re, im=im,
                        avg=fx(lay.eps_avg, S))
        st, o = call(go)
        if st != 'ok':
            o = dict(ok=False, fre=[], fim=[], areas=[], re=[], im=[], avg=0,
                     err=o)
        evs.append(dict(op='add', eps=[s['eps'] for s in act['shs']],
                        id='layer:add', **o))
        if st != 'ok':
            break
    return evs


def run_case(case):
    if case[0]['op'] == 'layer':
        return run_layer(case[:4])
    return run_shape(case)


def body(c):
    c.model('FourierLawsMC')
    c.model('FourierLawsMC', 'FourierLawsMC_nophase', expect_violation='NoPhase')
    cases = c.generate('ShapeGen', num=6000 if THOROUGH else 500, depth=10)
    traces = pmap(run_case, cases, chunk=10)
    c.extra['events'] = {}
    for t in traces:
        for e in t:
            c.extra['events'][e['op']] = c.extra['events'].get(e['op'], 0) + 1
    c.sample(traces[0])
    c.judge('ShapeTrace', traces, batch=max(8, len(traces) // 8))


if __name__ == '__main__':
    main('C02', body, assumptions=[
        'the region is sampled through is_inside on a grid; that integral is '
        'compared up to the discretisation error of the grid',
        'shapes of one layer may overlap; the layer is judged as the weighted '
        'sum the documentation gives'])
