"""C19: automatic gradients equal the derivatives."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import numpy as np
import autograd.numpy as npa
from autograd import value_and_grad, grad
import legume
import legume.constants as cs
from legume.primitives import fmap
from vlib import desc

LEN, EPS, ANG = 3e-4, 3e-3, 3e-3          # one step along a parameter
# excitons: the energy of one reciprocal length, and the potentials
A0, EU = 300e-9, .02
MASS = cs.hbar**2 * (2 * np.pi / A0)**2 / 2 / EU / cs.e
POT = [.013, -.011, .04, -.05, .1]


def unit(z):
    if z['f'] == 'phi':
        return ANG
    if z['w'] == 'V':
        return 2e-5
    return EPS if z['w'] in ('el', 'eu', 'eb') or z['f'] == 'eps' else LEN


class Build:
    """The structure with an offset along every site"""

    def __init__(self, a):
        self.a, self.v = a, a['v']
        self.n = {}
        for i, z in enumerate(a['sites']):
            self.n[(z['w'], z['i'], z['j'], z['f'], z['m'])] = i
        self.u = np.array([unit(z) for z in a['sites']])

    def at(self, p, w, i=0, j=0, f='', m=0):
        k = self.n.get((w, i, j, f, m))
        return 0. if k is None else p[k] * self.u[k]

    def shape(self, p, w, i, j, sh):
        o = lambda f, m=0: self.at(p, w, i, j, f, m)
        U, k = desc.U, sh['k']
        e = sh['eps'] + o('eps')
        x, y, r = sh['x'] / U + o('x'), sh['y'] / U + o('y'), sh['r'] / U + o('r')
        if k == 'circle':
            return legume.Circle(eps=e, x_cent=x, y_cent=y, r=r)
        if k == 'square':
            return legume.Square(eps=e, x_cent=x, y_cent=y, a=r)
        if k == 'ellipse':
            return legume.Ellipse(eps=e, x_cent=x, y_cent=y,
                                  rx=sh['rx'] / U + o('rx'),
                                  ry=sh['ry'] / U + o('ry'),
                                  phi=np.arctan2(sh['s'], sh['c']) + o('phi'))
        xs = [v / U + o('xs', m + 1) for m, v in enumerate(sh['xs'])]
        ys = [v / U + o('ys', m + 1) for m, v in enumerate(sh['ys'])]
        return legume.Poly(eps=e, x_edges=npa.array(xs), y_edges=npa.array(ys))

    def phc(self, p):
        s = self.v['s']
        c = legume.PhotCryst(desc.lattice(self.v), eps_l=s['el'] + self.at(
            p, 'el'), eps_u=s['eu'] + self.at(p, 'eu'))
        for i, lay in enumerate(s['layers']):
            c.add_layer(d=lay['d'] / desc.UZ + self.at(p, 'd', i + 1),
                        eps_b=lay['eps'] + self.at(p, 'eb', i + 1))
            for j, sh in enumerate(lay['shapes']):
                c.add_shape(self.shape(p, 'sh', i + 1, j + 1, sh))
        for i in (0, 1):
            for j, sh in enumerate(s['clad'][i]):
                c.add_shape(self.shape(p, 'cl', i + 1, j + 1, sh), cladding=i)
        return c

    def layer(self, p):
        lay = self.v['s']['layers'][0]
        l = legume.ShapesLayer(desc.lattice(self.v), 0, lay['d'] / desc.UZ,
                               eps_b=lay['eps'] + self.at(p, 'eb', 1))
        for j, sh in enumerate(lay['shapes']):
            l.add_shape(self.shape(p, 'sh', 1, j + 1, sh))
        return l

    def eps(self):
        s = self.v['s']
        out = []
        for z in self.a['sites']:
            w = z['w']
            lay = s['layers'][z['i'] - 1] if w in ('eb', 'sh') else None
            out.append(s['el'] if w == 'el' else s['eu'] if w == 'eu' else
                       lay['eps'] if w == 'eb' else
                       lay['shapes'][z['j'] - 1]['eps']
                       if w == 'sh' and z['f'] == 'eps' else
                       s['clad'][z['i'] - 1][z['j'] - 1]['eps']
                       if w == 'cl' and z['f'] == 'eps' else 0)
        return out


def solve(b, p, o, k, n, sig):
    kp = 2 * np.pi * np.array(k, float)[:, None] / 20
    if b.a['kind'] == 'exc':
        c = b.phc(p)
        g = legume.ExcitonSchroedEq(
            c, z=.01, V_shapes=POT[b.a['pot'] % len(POT)] + b.at(p, 'V'),
            a=A0, M=MASS, E0=1.5, loss=1e-4, osc_str=[1e15, 1e15, 0],
            gmax=desc.gmax(b.v), truncate_g=b.a['tr'])
        g.run(kpoints=kp, numeig_ex=n, verbose_ex=False)
        # quanta of kinetic energy over the ground state without potential
        g.freqs = npa.real(g.eners - 1.5) / EU
        return g
    if b.a['kind'] == 'pwe':
        g = legume.PlaneWaveExp(b.layer(p), gmax=desc.gmax(b.v))
        g.run(kpoints=kp, pol=o['pol'], numeig=n)
        return g
    g = legume.GuidedModeExp(b.phc(p), gmax=desc.gmax(
        b.v, (1.01, 1.07, 1.21, 1.13)), truncate_g=b.a['tr'])
    kw = dict(kpoints=kp, gmode_inds=list(o['gi']), numeig=n, verbose=False,
              gmode_step=1e-2, compute_im=o['ci'] and sig is not None,
              eig_solver=o['solver'].strip('2'))
    if o['interp']:
        kw.update(gmode_compute='interp', gmode_npts=90)
    if o['approx']:
        kw['gradients'] = 'approx'
    if sig:
        kw['eig_sigma'] = sig
    if o['kz'] != 'none':
        kw.update(kz_symmetry=o['kz'], angles=np.zeros(1), use_sparse=o['sp'],
                  symm_thr=1e-4)
    g.run(**kw)
    return g


def field(b, g, ob, m):
    xg, yg = np.array([-.21, .13]), np.array([-.3, .07, .33])
    if b.a['kind'] == 'exc':
        f = g.get_wavef_xy(0, m, Nx=3, Ny=4)[0]
        return npa.sum(npa.abs(f[:2])**2) / 2
    if b.a['kind'] == 'pwe':
        c = {'h': {'te': 'z', 'tm': ob['c'] if ob['c'] != 'z' else 'x'},
             'e': {'tm': 'z', 'te': ob['c'] if ob['c'] != 'z' else 'y'}}
        c = c['h' if ob['w'] == 'h' else 'e'][g.pol.lower()]
        f = g.get_field_xy(ob['w'], 0, m, component=c, Nx=3, Ny=4)[0]
        return npa.sum(npa.abs(f[c])**2) / 20
    s = b.v['s']
    i = min(ob['l'], len(s['layers'])) - 1
    z = sum(l['d'] for l in s['layers'][:i]) + s['layers'][i]['d'] * ob['z'] / 10
    f = g.get_field_xy(ob['w'], 0, m, z=z / desc.UZ, xgrid=xg, ygrid=yg,
                       component=ob['c'])[0]
    return npa.sum(npa.abs(f[ob['c']])**2) / 20


def objective(b, o, n, sig, modes):
    if o['fmap']:
        def part(k):
            def f(p):
                g = solve(b, p, o, k, n, sig)
                return g.freqs[0][modes[0]]
            return f
        return lambda p: npa.sum(fmap([part(o['k']), part(o['k2'])], p) *
                                 np.array([1., 2.]))

    def f(p):
        g = solve(b, p, o, o['k'], n, sig)
        out = 0.
        for ob, m in zip(o['obs'], modes):
            w = ob['w']
            if w == 'f':
                x = g.freqs[0][m]
            elif w == 'im':
                x = 30 * (g.freqs_im[0][m] if o['ci'] else
                          g.compute_rad(0, [m])[0][0])
            elif w == 'rad':
                r = g.compute_rad(0, [m])[1]
                x = 30 * sum(npa.sum(npa.abs(r[q][0])**2) for q in
                             sorted(r))
            else:
                x = field(b, g, ob, m)
            out = out + ob['wt'] * x
        return out
    return f


def value(f, p):
    """Value; not a number where the step leaves too few guided modes"""
    st, r = call(lambda: float(f(p)), seconds=400)
    if st != 'ok' and any(w in r for w in ('Requested', 'broadcast',
                                           'No guided', 'Only purely')):
        return np.nan
    if st != 'ok':
        raise RuntimeError(r)
    return r


def pick_mode(f, m, gap):
    """The mode, or one near to it, that is far enough from the others"""
    f = np.asarray(f)
    d = np.full(len(f), np.inf)
    d[1:] = np.minimum(d[1:], np.diff(f))
    d[:-1] = np.minimum(d[:-1], np.diff(f))
    ok = [i for i in range(len(f) - 1) if d[i] > gap and f[i] > .02]
    return min(ok, key=lambda i: abs(i - m)) if ok else None


def run_case(case):
    a = case[0]
    b = Build(a)
    ns = len(a['sites'])
    evs = [dict(op='base', id='base', sites=a['sites'], eps=b.eps())]
    for o in case[1:]:
        if o['op'] == 'end':
            break
        o = dict(o)
        kind = a['kind']
        if kind != 'gme':
            for ob in o['obs']:
                if ob['w'] in ('im', 'rad'):
                    ob['w'] = 'f'
            o.update(sig=0, approx=False, interp=False, ci=False,
                     solver='eigh')
        if o['kz'] != 'none':
            o['k'] = [o['k'][0], 0]
            o['k2'] = [o['k2'][0], 0]
        o['fmap'] = o['fmap'] and o['kz'] == 'none'
        if o['fmap']:
            o['obs'] = [dict(o['obs'][0], w='f')]
        fields = any(ob['w'] not in ('f', ) for ob in o['obs'])

        def go():
            legume.set_backend('numpy')
            p0, n, sig = np.zeros(ns), 5, o['sig'] / 100
            q = dict(o, ci=False)
            while True:
                st, g = call(solve, b, p0, q, o['k'], n, sig)
                if st == 'ok':
                    break
                if n == 2 and ('Requested' in g or 'No guided' in g):
                    return dict(skip=True)
                if n == 2 or not any(w in g for w in (
                        'Requested', 'broadcast', 'No guided', 'k must')):
                    raise RuntimeError(g)
                n -= 1
            gap = 4e-3 if fields else 2e-3
            off = 20 if kind == 'exc' else 0
            modes = [pick_mode(g.freqs[0] + off, ob['m'], gap)
                     for ob in o['obs']]
            if o['fmap']:
                st, g2 = call(solve, b, p0, q, o['k2'], n, sig)
                if st != 'ok' or modes[0] is None or pick_mode(
                        g2.freqs[0] + off, modes[0], gap) != modes[0]:
                    return dict(skip=True)
            if None in modes:
                return dict(skip=True)
            if sig:
                # the requested modes have to be the same ones
                far = np.sort(np.abs(np.asarray(g.freqs[0]) - sig))
                if n < 5 or far[-1] - far[-2] < gap:
                    return dict(skip=True)
            f = objective(b, o, n, sig, modes)
            v0 = float(f(p0))
            dirs = [np.array(c, float) for c in o['dirs']]
            if o['approx']:
                keep = np.array([z['f'] in ('x', 'y') for z in a['sites']])
                dirs = [d * keep for d in dirs]
            val = [[value(f, h * c) - v0 for h in (1, -1, 2, -2)]
                   for c in dirs]
            legume.set_backend('autograd')
            try:
                va, g = value_and_grad(f)(p0)
                joint = []
                if o['joint'] and not o['approx']:
                    joint = [float(grad(lambda t: f(t[0] * dirs[0]))(
                        np.zeros(1))[0])]
            finally:
                legume.set_backend('numpy')
            g = np.asarray(g)
            if np.iscomplexobj(g):
                g = np.where(np.abs(np.imag(g)) < 1e-9, np.real(g), np.nan)
            big = max([np.nanmax(np.abs(val), initial=0)] + [np.nanmax(
                np.abs(c * g)) for c in dirs] + [np.nansum(np.abs(g)),
                                                 4e-3])
            S = min(4e6 / big, 1e9)
            pure = all(ob['w'] in ('f', 'im') for ob in o['obs'])
            return dict(
                v=fx(v0, 10**7), va=fx(va, 10**7), g=fxl(g, 10 * S),
                dirs=[dict(c=[int(x) for x in c], v=fxl(v, S))
                      for c, v in zip(dirs, val)],
                joint=fxl(joint, 10 * S), hom=0 if kind == 'exc' else fx(-v0 / 2 * EPS, 10 * S),
                approx=o['approx'], sym=o['kz'] != 'none', pure=pure,
                rel=20000,
                skip=False)
        st, r = call(go, seconds=400)
        e = dict(op='obj', ok=st == 'ok', id='%s %s %s %s' % (
            kind, a['spec'], '+'.join(ob['w'] for ob in o['obs']),
            o['solver'] if kind == 'gme' else o['pol'] if kind == 'pwe' else a['tr']))
        evs.append(dict(e, **r) if st == 'ok' else dict(e, err=r))
    return evs


def smooth(v):
    d = max(abs(2 * (v[0] - v[1]) - (v[2] - v[3])),
            abs(4 * (v[0] + v[1]) - (v[2] + v[3])))
    return d <= 12 + (abs(v[0]) + abs(v[1])) / 2


def body(c):
    c.model('GradMC')
    c.model('GradMC', 'GradMC_overwrite', expect_violation='True')
    c.model('GradMC', 'GradMC_detach', expect_violation='True')
    cases = c.generate('GradGen', 'GradGen_gme', num=900 if THOROUGH else 44,
                       depth=9)
    cases += c.generate('GradGen', 'GradGen_pwe', num=900 if THOROUGH else 40,
                        depth=9)
    cases += c.generate('GradGen', 'GradGen_exc', num=600 if THOROUGH else 40,
                        depth=9)
    cases.sort(key=lambda k: -len(k[0]['sites']) * (k[0]['kind'] == 'gme'))
    traces = pmap(run_case, cases, chunk=1)
    rs = [e for t in traces for e in t if e.get('ok') and not e['skip']]
    c.extra['gradients'] = len(rs)
    c.extra['directions'] = sum(len(e['dirs']) for e in rs)
    c.extra['directions_smooth'] = sum(smooth(d['v']) for e in rs
                                       for d in e['dirs'])
    c.extra['by_kind'] = {k: sum(k in e['id'].split()[2].split('+')
                                 for e in rs)
                          for k in ('f', 'im', 'rad', 'h', 'e', 'd')}
    c.sample(next(t for t in traces if len(t) > 1)[1])
    c.judge('GradTrace', traces, batch=max(8, len(traces) // 8))


if __name__ == '__main__':
    main('C19', body)
