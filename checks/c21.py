"""C21: invalid requests are rejected, and leave no trace."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import numpy as np
import legume
from legume import (Lattice, PhotCryst, ShapesLayer, Circle, GuidedModeExp,
                    PlaneWaveExp, ExcitonSchroedEq, HopfieldPol)
from legume.minimize import Minimize

LAT = {'square': ('square', ), 'hexagonal': ('hexagonal', ),
       'vectors': ([1., 0.], [.3, 1.1])}
QW = dict(V_shapes=.01, a=4e-7, M=1e-31, E0=1.5, loss=1e-5)
OSC = [1e16, 1e16, 0.]
KP = {'axis': np.array([[.31, .83], [0., 0.]]),
      'any': np.array([[.31, .93], [.21, .43]]), 'flat': np.array([.31, .21])}


def phc(st, wells=None):
    p = PhotCryst(Lattice(['square', 'hexagonal', 'square'][st - 1]))
    p.add_layer(d=.3, eps_b=12.)
    p.add_shape(Circle(r=.23, eps=2.))
    if st > 1:
        p.add_layer(d=.2, eps_b=6.)
        p.add_shape(Circle(r=.31, eps=1., x_cent=.05 * (st - 2)))
    if wells in ('one', 'two', 'differ'):
        p.add_qw(z=.1, osc_str=OSC, **QW)
    if wells in ('two', 'differ'):
        p.add_qw(z=.2, osc_str=[2e16, 0., 1e16],
                 **dict(QW, a=5e-7 if wells == 'differ' else 4e-7))
    return p


def new(r):
    gm = 1.2 if r['gm'] == 1 else 1.5
    tr = {} if r['tr'] == 'abs' and r['gm'] == 2 else {'truncate_g': r['tr']}
    st = r['st']
    if r['kind'] == 'gme':
        return GuidedModeExp(phc(st), gmax=gm, **tr)
    if r['kind'] == 'pwe':
        return PlaneWaveExp(phc(st).layers[0], gmax=gm)
    if r['kind'] == 'pol':
        return HopfieldPol(phc(st, r['wells']), gmax=gm, **tr)
    z = {'inside': .1, 'upper-layer': .4 if st > 1 else .2, 'below': -.1,
         'above': 1.}[r['z']]
    o = {'list': OSC, 'array': np.array(OSC), 'none': None, 'two': [1., 2.],
         'tuple': tuple(OSC), 'number': 3.}[r['osc']]
    return ExcitonSchroedEq(phc(st), z=z, osc_str=o, gmax=gm, **QW, **tr)


def eff(g):
    for i, la in enumerate(g.phc.layers + g.phc.claddings):
        la.eps_eff = 1. if i >= len(g.phc.layers) else 7. + i


def args_of(kind, r):
    kp = KP[r['kp']].copy()
    ex = dict(foo=1) if r['extra'] else {}
    if kind == 'gme':
        a = dict(kpoints=kp, gmode_compute=r['gmc'], gradients=r['grad'],
                 eig_solver=r['solver'], eps_eff=r['eps'], numeig=r['ne'],
                 gmode_inds=list(r['inds']), compute_im=r['im'], verbose=False,
                 symm_thr=1e-5, only_gmodes=r['only'], use_sparse=r['sp'],
                 gmode_step=.02, gmode_npts=300, **ex)
        if r['gmc'] == 'exact' and r['im']:
            a.pop('gmode_compute')
        if r['grad'] == 'exact' and r['sp']:
            a.pop('gradients')
        if r['eps'] == 'average' and r['im']:
            a.pop('eps_eff')
        if r['solver'] == 'eigh' and r['sp']:
            a.pop('eig_solver')
        if r['kz'] != 'none':
            a['kz_symmetry'] = r['kz']
        if r['ang'] != 'none':
            a['angles'] = {'right': np.zeros(2), 'short': np.zeros(1),
                           'off': np.ones(2) * np.pi / 4}[r['ang']]
        return a
    if kind == 'pwe':
        return dict(kpoints=kp, pol=r['pol'], numeig=r['ne'], **ex)
    if kind == 'ese':
        return dict(kpoints=kp, numeig_ex=r['ne'], verbose_ex=False, **ex)
    return dict(kpoints=kp, gme_options=dict(
        numeig=r['ne'], eig_solver=r['solver'], gmode_inds=[0, 1],
        gmode_step=.02, verbose=False, **ex), exc_options=dict(
            numeig_ex=2, verbose_ex=False,
            **(dict(foo=1) if r['extraex'] else {})), verbose=False)


def freeze(x):
    if isinstance(x, dict):
        return {k: freeze(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return ('array', x.shape, x.tobytes())
    return (type(x).__name__, repr(x))


def results(kind, s):
    """Everything an object shows of its last run"""
    if kind in ('gme', 'pwe'):
        out = [np.ravel(s.freqs)]
        if kind == 'gme' and len(s.freqs_im):
            out += [1e3 * np.ravel(s.freqs_im)]
        if kind == 'gme' and len(s.kz_symms):
            out += [np.ravel(s.kz_symms)]
        return fxl(np.concatenate(out))
    e = np.ravel(s.eners)
    return fxl(np.real(e)) + fxl(np.imag(e)) + (
        fxl(np.ravel(s.eners_im)) if kind == 'pol' else [])


def query(kind, s, q):
    w, k, m = q['what'], q['k'], q['m']
    if kind == 'ese':
        r = [s.get_wavef_xy(k, m, Nx=3, Ny=4)[0]]
    elif w == 'rad':
        r = [s.compute_rad(k, [m])[0]]
    elif w == 'radsp':
        r = [s.compute_rad_sp(k, [m])[0]]
    else:
        a = [q['field'], k, m] + ([.07] if kind == 'gme' else [])
        f = getattr(s, 'get_field_' + w)
        n = {'xy': dict(Nx=3, Ny=4), 'xz': dict(Nx=3, Nz=4),
             'yz': dict(Ny=3, Nz=4)}[w]
        fi = f(*a, component=q['comp'], **n)[0]
        r = [fi[c] for c in sorted(fi)]
    v = np.concatenate([np.ravel(np.abs(x))**2 for x in r])
    return fxl(v, 10**5)


def usual(kind, s):
    """Results of an object are not there before a run"""
    v = s.freqs if kind in ('gme', 'pwe') else s.eners
    return len(v) == 0


class Solver:
    def __init__(self):
        self.o, self.made, self.effd, self.last = {}, {}, {}, {}

    def step(self, a):
        i, op = a['i'], a['op']
        if op == 'new':
            st, s = call(new, a)
            if st == 'ok':
                self.o[i], self.made[i] = s, a
                self.effd[i], self.last[i] = False, None
            return dict(ok=st == 'ok', msg=str(s)[:120] if st != 'ok' else '',
                        empty=st == 'ok' and usual(a['kind'], s))
        s, kind = self.o[i], self.made[i]['kind']
        if op == 'eff':
            eff(s)
            self.effd[i] = True
            return dict(ok=True)
        if op == 'run':
            ar = args_of(kind, a)
            before = freeze(ar)
            st, r = call(s.run, **ar)
            e = dict(ok=st == 'ok', same=freeze(ar) == before, res=[], ref=[],
                     nm=0, msg=str(r)[:120] if st != 'ok' else '')
            self.last[i] = a if st == 'ok' else None
            if st == 'ok':
                e['res'] = results(kind, s)
                v = s.freqs if kind in ('gme', 'pwe') else s.eners
                e['nm'] = a['ne'] if kind == 'pol' else int(np.shape(v)[1])
                st, f = call(self.fresh, i)
                e['ref'] = results(kind, f) if st == 'ok' else ['none']
            return e
        before = results(kind, s) if self.last[i] else None
        st, r = call(query, kind, s, a)
        e = dict(ok=st == 'ok', res=[], ref=[], msg=str(r)[:120] if st != 'ok' else '')
        e['kept'] = (results(kind, s) if self.last[i] else None) == before
        if st == 'ok':
            e['res'] = r
            st, f = call(lambda: query(kind, self.fresh(i), a))
            e['ref'] = f if st == 'ok' else ['none']
            la = self.last[i]
            if kind == 'gme' and la and la['solver'] == 'eigsh':
                # degenerate modes may come in any basis from it
                e['res'] = e['ref'] = []
        return e

    def fresh(self, i):
        f = new(self.made[i])
        if self.effd[i]:
            eff(f)
        if self.last[i]:
            f.run(**args_of(self.made[i]['kind'], self.last[i]))
        return f


def objective(x):
    return legume.backend.sum((x - .3)**2)


class Build:
    def __init__(self):
        legume.set_backend('numpy')
        self.p = PhotCryst(Lattice('square'))

    def do(self, a):
        w, p = a['what'], self.p
        if w == 'layer':
            p.add_layer(d=.25, eps_b=4., **(
                {} if a['type'] == 'default' else {'layer_type': a['type']}))
        elif w == 'shape':
            c = Circle(r=.1, eps=2.)
            sh = {'one': c, 'list': [c, Circle(r=.2)], 'text': 'circle',
                  'listwrong': [c, 3], 'class': Circle, 'number': 3}[a['shape']]
            cl = {} if a['clad'] == 'no' else {'cladding': int(a['clad']) if
                                               a['clad'] in '01-12' else a['clad']}
            if cl or a['ix'] != -1:
                cl['layer'] = a['ix']
            p.add_shape(sh, **cl)
        elif w == 'well':
            top = .25 * len(p.layers)
            z = {'inside': .45 * top if top else .1, 'below': -.2,
                 'justbelow': -1e-6, 'bottom': 1e-6, 'above': top + .2,
                 'justabove': top + 1e-6, 'top': top - 1e-6}[a['z']]
            p.add_qw(z=z, osc_str=OSC, **QW)
        elif w == 'eps':
            n = [3, 3, 3]
            if not a['same']:
                n[a['part'] - 1] = 2
            p.get_eps([np.zeros(k) + .1 for k in n])
        elif w == 'eff':
            la = ShapesLayer(p.lattice, 0, .2)
            if a['set']:
                la.eps_eff = 3.
            la.eps_eff
        elif w == 'lattice':
            f = a['form']
            Lattice(*{'foo': ('foo', ), 'one': ([1, 0], ), 'nothing': (),
                      'numbers': (1, 2)}.get(f, LAT.get(f)))
        elif w == 'path':
            Lattice(*LAT[a['lat']]).bz_path(
                [np.array([1., 2.]) if s == 'vector' else s for s in a['pts']],
                list(a['ns']))
        elif w == 'poly':
            legume.Poly(x_edges=[0, 1, 1] if a['form'] != 'clockwise' else
                        [0, 0, 1], y_edges={'anticlockwise': [0, 0, 1],
                                            'clockwise': [0, 1, 0],
                                            'lengths': [0, 0]}[a['form']])
        elif w == 'backend':
            legume.set_backend(a['name'])
        elif w == 'print':
            legume.set_print_backend(a['name'])
        elif w == 'slab':
            legume.gme.slab_modes.guided_modes(
                np.array([1., 2.]), np.array([1., 12., 1.]), np.array([.3]),
                pol=a['pol'])
        else:
            b = {'none': None, 'pair': [0., 1.], 'list': [(0., 1.)] * 3,
                 'open': [(0., 1.), (None, 1.), (0., None)],
                 'three': [0., 1., 2.],
                 'ragged': [(0., 1., 2.), (0., 1.), (0., 1.)], 'one': [(0., 1.)],
                 'short': [(0., 1.)] * 2, 'text': 'ab'}[a['form']]
            old = legume.backend.__class__
            legume.set_backend('autograd')
            try:
                m = Minimize(objective)
                getattr(m, a['meth'])(np.array([.5, .6, .7]), Nepochs=1,
                                      bounds=b)
            finally:
                legume.backend.__class__ = old

    def step(self, a):
        st, r = call(self.do, a)
        p = self.p
        return dict(ok=st == 'ok', msg=str(r)[:120] if st != 'ok' else '',
                    on=len(p.layers), osh=[len(la.shapes) for la in p.layers],
                    oclad=[len(la.shapes) for la in p.claddings],
                    oqw=len(p.qws), obk='numpy' if legume.backend.eigh
                    is np.linalg.eigh else 'autograd')


def run_case(case):
    s = Build() if case[0]['op'] == 'build' else Solver()
    legume.set_backend('numpy')
    out = []
    try:
        for n, a in enumerate(case):
            if a['op'] == 'end':
                break
            a = dict(a)
            kind = s.made[a['i']]['kind'] if a['op'] == 'run' else ''
            if kind in ('pwe', 'ese'):
                # these keep what there is of the modes asked for
                a['ne'] = min(a['ne'], 4)
            out.append(dict(a, **s.step(a), id='%s#%d' % (a['op'], n)))
    finally:
        legume.set_backend('numpy')
    return out


def body(c):
    c.model('RequestsMC')
    c.model('RequestsMC', 'RequestsMC_sticky', expect_violation='OnlyItsOwn')
    c.model('RequestsMC', 'RequestsMC_late', expect_violation='Results')
    m = 12 if THOROUGH else 1
    so = c.generate('RequestsGen', 'RequestsGen_solver', num=240 * m, depth=12)
    bu = c.generate('RequestsGen', 'RequestsGen_build', num=200 * m, depth=24)
    traces = pmap(run_case, so + bu, chunk=4)
    evs = [e for t in traces for e in t]
    for op in ('new', 'run', 'query', 'build'):
        for ok in (True, False):
            c.extra[op + (' accepted' if ok else ' refused')] = sum(
                e['op'] == op and e['ok'] == ok for e in evs)
    c.sample(traces[0][:5])
    c.judge('RequestsTrace', traces, batch=max(8, len(traces) // 8))


if __name__ == '__main__':
    main('C21', body, assumptions=[
        'only requests documented as errors, or that cannot mean anything, '
        'are generated as illegal'])
