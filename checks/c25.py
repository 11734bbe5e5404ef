"""C25: the numerical building blocks and their derivatives."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import numpy as np
import scipy.sparse as sp
import autograd.numpy as npa
from autograd import grad
from autograd.core import make_vjp
import legume
from legume import utils
from legume.backend import backend as bd
from legume.primitives import fmap

SV = 3000           # eigenvectors


def I(v, k=1):
    """Integers as they are; anything else is marked"""
    if np.iscomplexobj(v):
        v = np.asarray(v)
        if v.ndim:
            return [I(x, k) for x in v]
        return [I(v.real, k), I(v.imag, k)]
    v = np.asarray(v, float) * k
    if v.ndim:
        return [I(x) for x in v]
    v = float(v)
    if not math.isfinite(v) or abs(v) >= 2**31 or abs(v - round(v)) > 1e-6:
        return BIG
    return int(round(v))


def F(v, k):
    """Rounded to 1/k"""
    if np.iscomplexobj(v):
        v = np.asarray(v)
        if v.ndim:
            return [F(x, k) for x in v]
        return [fx(v.real, k), fx(v.imag, k)]
    v = np.asarray(v, float)
    return [F(x, k) for x in v] if v.ndim else fx(v, k)


def C(x):
    x = np.array(x, float)
    return x[..., 0] + 1j * x[..., 1]


def cx(v):
    return np.asarray(v).astype(complex)


def back(f, x, g):
    vjp, ans = make_vjp(f, x)
    g = np.asarray(g)
    return vjp(g.astype(np.result_type(ans)).reshape(np.shape(ans)))


def op_toep(r, ag):
    n, T1, T2, g = r['n'], C(r['T1']), C(r['T2']), C(r['g'])
    if r['re'] and not ag:
        T1, T2 = T1.real, T2.real
    o = dict(out=I(cx(bd.toeplitz_block(n, T1, T2))))
    if ag:
        o['v1'] = I(cx(back(lambda t: bd.toeplitz_block(n, t, T2), T1, g)))
        o['v2'] = I(cx(back(lambda t: bd.toeplitz_block(n, T1, t), T2, g)))
    return o


def op_extend(r, ag):
    v, i = np.array(r['vals'], float), np.array(r['inds']) - 1
    two = r['op'] == 'extend2'
    s, i = ((2, 3), (i // 3, i % 3)) if two else ((6, ), i)
    f = lambda x: bd.extend(x, i, s)
    o = dict(out=I(np.reshape(f(v), -1)), shape=list(np.shape(f(v))))
    if ag:
        o['v'] = I(back(f, v, np.reshape(np.array(r['g'], float), s)))
    return o


def op_interp(r, ag):
    xp, x = np.array(r['xp'], float), np.array(r['q']) / 4
    f = lambda y: bd.interp(x, xp, y)
    y = np.array(r['yp'], float)
    o = dict(out=I(f(y), 16))
    if ag:
        o['v'] = I(back(f, y, np.array(r['g'], float)), 16)
    return o


def op_fmap(r, ag):
    fs = [lambda p, a=np.array(a, float): npa.sum(a * p**2) for a in r['A']]
    x = np.array(r['x'], float)
    o = dict(out=I(fmap(fs, x)))
    if ag:
        o['v'] = I(back(lambda p: fmap(fs, p), x, np.array(r['g'], float)))
    return o


def op_spdot(r, ag):
    S, D = sp.coo_matrix(np.array(r['S'], float)), np.array(r['D'], float)
    o = dict(out=I(bd.spdot(S, D)))
    if ag:
        o['v'] = I(back(lambda d: bd.spdot(S, d), D, np.array(r['g'], float)))
    return o


def op_inv(r, ag):
    M = C(r['M'])
    o = dict(out=I(cx(bd.inv(M))))
    if ag:
        o['v'] = I(cx(back(bd.inv, M, C(r['g']))))
    return o


def op_sqrt(r, ag):
    s, g = C(r['s']), np.array(r['g'], float)
    x = s**2 if r['cx'] else np.real(s**2)
    o = dict(out=F(cx(bd.sqrt(x)), 10**6))
    if ag:
        v = cx(back(bd.sqrt, x, g))
        o['v'] = F(v, 10**6)
        o['finite'] = bool(np.isfinite(v).all())
    return o


def eig_event(r, ag, solve, k):
    H, D = C(r['H']), C(r['D'])
    if r['re']:
        H, D = H.real, D.real
    w, V = solve(H)
    g, c = np.array(r['g'], float), np.array(r['c'], float)
    full = np.linalg.eigvalsh(H)
    gap = min([1e3] + [np.abs(np.delete(full, np.argmin(np.abs(full - x))) -
                              x).min() for x in w if len(full) > 1])
    if r['op'] == 'eigsh':      # the nearest ones stay the same ones
        d = np.sort(np.abs(full - r['sig'] - .37))
        gap = min(gap, 10 * (d[k] - d[k - 1]))
    o = dict(w=F(w, SV), V=F(cx(V), SV), full=F(full, SV), gap=F(gap, SV),
             symm=SV)
    if ag and (r['op'] == 'eigh' or gap > .01):
        G = back(lambda h: solve(h)[0], H, g)
        o['dw'] = F(np.sum(G * D).real, SV)
        o['dwV'] = F(np.sum(g * np.real(np.einsum('ik,ij,jk->k', np.conj(V),
                                                  D, V))), SV)

        def L(h):
            ww, v = solve(h)
            i = bd.argsort(ww)
            return npa.sum(c[:, :k] * bd.square(bd.abs(v[:, i])))
        if gap > .5:
            h = 1e-4
            fd = (L(H + h * D) - L(H - h * D)) / 2 / h
            # an iterative solver may start anywhere: the worst of several
            ds = [np.sum(grad(L)(H) * D).real for _ in range(
                5 if r['op'] == 'eigsh' else 1)]
            o['dv'] = F(max(ds, key=lambda d: abs(d - fd) if np.isfinite(d)
                            else np.inf), 10**5)
            o['fd'] = F(fd, 10**5)
    return o


def op_eigh(r, ag):
    n = len(r['H'])
    return eig_event(r, ag, bd.eigh, n)


def op_eigsh(r, ag):
    s = r['sig'] + .37

    def solve(h):
        w, V = bd.eigsh(h, k=r['k'], sigma=s)
        i = bd.argsort(w)       # in no particular order
        return w[i], V[:, i]
    return dict(eig_event(r, ag, solve, r['k']), s=F(s, SV))


def op_eig(r, ag):
    """A matrix of no symmetry"""
    M, D = C(r['M']), C(r['D'])
    if r['re']:
        M, D = M.real, D.real
    w, V = bd.eig(M)
    c, d = np.array(r['c'], float), C(r['g'])
    o = dict(w=F(cx(w), SV), V=F(cx(V), SV))
    if ag:
        def L(m):
            ww, v = bd.eig(m)
            i = bd.argsort(bd.real(ww))
            return (npa.sum(bd.real(ww[i] * d)), npa.sum(c * bd.square(bd.abs(v[:, i]))))
        x = np.sort(w.real)
        if len(x) == 1 or np.diff(x).min() > .3 and np.linalg.cond(V) < 6:
            h = 1e-4
            for i, (a, b) in enumerate((('dw', 'fdw'), ('dv', 'fdv'))):
                G = grad(lambda m: L(m)[i])(M)
                o[a] = F(np.sum(G * D).real, 10**5)
                o[b] = F((L(M + h * D)[i] - L(M - h * D)[i]) / 2 / h, 10**5)
    return o


def op_fsolve(r, ag):
    a, b = np.array(r['a'], float), np.array(r['b'], float)
    c, p = r['c'], r['pow']
    K = float(c * r['root']**p * b.sum() - a.sum())

    def f(x, K, a, b):
        return c * x**p * bd.sum(b) - bd.sum(a) - K
    o = dict(out=I(bd.fsolve_D22(f, 0., 8., K, a, b)))
    if ag:
        g = float(r['g'])
        den = c * p * r['root']**(p - 1) * b.sum()
        o['va'] = I(den * back(lambda y: bd.fsolve_D22(f, 0., 8., K, y, b), a, g))
        o['vb'] = I(den * back(lambda y: bd.fsolve_D22(f, 0., 8., K, a, y), b, g))
    return o


def op_gradnum(r, ag):
    n = r['rows']
    c = np.array(r['c'], float).reshape(n, -1)
    x = np.array(r['x'], int if r['intx'] else float).reshape(n, -1)
    h = {'float': .25 * r['h1'], 'int': r['h1'],
         'npfloat': np.float64(.25 * r['h1']),
         'array': np.array(r['h']).reshape(n, -1) / 4}[r['hk']]
    x0 = x.copy()
    out = utils.grad_num(lambda y: np.sum(c * y**2), x, h)
    q = np.broadcast_to(np.array(h) * 4, x.shape)
    return dict(out=I(out.ravel(), 4), q=I(q.ravel()),
                shape=list(out.shape) == list(x.shape),
                kept=bool(np.all(x == x0)))


def op_vjpnum(r, ag):
    n = r['rows']
    A = np.array(r['A'], float)
    x = np.array(r['x'], float).reshape(n, -1)
    fn = (lambda y, z: A.dot((y**2).ravel())) if r['at'] == 0 else \
        (lambda z, y: A.dot((y**2).ravel()))
    args = (x, np.ones(2)) if r['at'] == 0 else (np.ones(2), x)
    v, = utils.vjp_maker_num(fn, [r['at']], [r['h'] / 4])
    out = np.asarray(v(fn(*args), *args)(np.array(r['g'], float)))
    return dict(out=I(out.ravel(), 4), shape=out.shape == x.shape)


def op_nearest(r, ag):
    return dict(out=[int(i) + 1 for i in utils.find_nearest(
        np.array(r['arr'], float), float(r['v']), r['N'])])


def op_star(r, ag):
    A, B = np.array(r['A'], float), np.array(r['B'], float)
    den = 1 - B[0, 0] * A[1, 1]
    if den == 0:
        return None
    return dict(out=I(utils.RedhefferStar(A, B) * den))


def op_detach(r, ag):
    x = np.array(r['x'], float)
    o = dict(out=I(utils.get_value(x)))
    if ag:
        o['v'] = I(grad(lambda y: npa.sum(utils.get_value(y) * y))(x))
    return o


def op_energy(r, ag):
    a = r['nm'] * 1e-9
    import warnings
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        s, v = call_plain(utils.from_freq_to_e, a)
    # 1239.841984 eV nm
    return dict(res=s, out=F(v * r['nm'], 10**5) if s == 'ok' else 0,
                warned=any(issubclass(x.category, UserWarning) for x in w))


def call_plain(f, *a):
    try:
        return 'ok', f(*a)
    except Exception as e:
        return 'exc', str(e)


def op_ftinv(r, ag):
    u = r['un'] if r['inv'] else 1 / r['un']        # the unit of length
    g = 2 * np.pi * np.array(r['gs'], float).T / u
    out = utils.ftinv(C(r['c']), g, np.array(r['qx']) / 4 * u,
                      np.array(r['qy']) / 4 * u)
    return dict(out=I(out))


def op_arrays(r, ag):
    A, B, D = (np.array(r[k], float) for k in 'ABC')
    v, w = np.array(r['v'], float), np.array(r['w'], float)
    u = A.ravel()
    o = dict(
        sum=bd.sum(A), sum0=bd.sum(A, axis=0), dot=bd.dot(A, D),
        matmul=bd.matmul(A, D), outer=bd.outer(u, v), transpose=bd.transpose(A),
        reshape=bd.reshape(A, (-1, )), roll=bd.roll(u, r['r']),
        where=bd.where(A > r['lo'], A, B), argwhere=bd.argwhere(u > r['lo']).ravel(),
        triu=bd.triu(A), triu1=bd.triu(A, 1), amax=bd.amax(A), max=bd.max(A),
        min=bd.min(A), sort=bd.sort(u), argsort=u[bd.argsort(u)],
        shape=bd.shape(A), size=bd.size(A), cross=bd.cross(v, w),
        square=bd.square(A), abs=bd.abs(A), diag=bd.diag(v),
        diagonal=bd.diag(bd.diag(v)), hstack=bd.hstack((A, B)),
        vstack=bd.vstack((A, B)), concatenate=bd.concatenate((A, B), axis=0),
        stack=bd.stack([u, u]), full=bd.full((2, 2), r['lo']),
        unique=bd.unique(u), ones=bd.ones((2, r['n'])), zeros=bd.zeros((r['n'], )),
        eye=bd.eye(r['n']), arange=bd.arange(r['lo'], r['lo'] + r['n']),
        linspace=bd.linspace(r['lo'], r['lo'] + 2 * r['n'], r['n'] + 1),
        power=bd.power(v, 2), round=bd.round(u + .25), array=bd.array(r['v']),
        newaxis=v[:, bd.newaxis])
    o = {k: I(np.asarray(x)) for k, x in o.items()}
    # four times the mean of squares minus the square of the mean
    o['var'] = I(bd.var(u) * len(u)**2)
    return dict(o=o)


def op_complexes(r, ag):
    u, w, M = C(r['u']), C(r['w']), C(r['M'])
    o = dict(conj=I(bd.conj(u)), outer=I(cx(bd.outer(u, w))),
             dot=I(cx(bd.dot(u, w))), mdot=I(cx(bd.dot(M, u))),
             sum=I(cx(bd.sum(u))), square=I(cx(bd.square(u))),
             norm2=I(bd.norm(u)**2), real=I(bd.real(u)), imag=I(bd.imag(u)),
             abs2=I(bd.abs(u)**2),
             typed=I(cx(bd.array(np.array(r['u'])[:, 0], dtype=bd.complex))))
    return dict(o=o)


def op_functions(r, ag):
    a, b = r['a'] / 4, r['b'] / 4
    k = 10**4
    ex, em = bd.exp(a), bd.exp(-a)
    return dict(o=dict(
        one=F(bd.sin(a)**2 + bd.cos(a)**2, k), tan=F(bd.tan(a) * bd.cos(a) - bd.sin(a), k),
        exp=F(ex * em, k), tanh=F(bd.tanh(a) * (ex + em) - (ex - em), k),
        up=bool((ex > 1) == (a > 0)) or a == 0,
        small=F(bd.sin(1e-3) * 1e3, k), exp1=F((bd.exp(1e-6) - 1) * 1e6, k),
        bessel0=F(2 * bd.bessel1(1e-3) * 1e3, k),
        # J0 + J2 = 2 J1 / x, J0' = -J1
        bessel=F(bd.bessel1(b) - (sp_j(b, 0) + sp_j(b, 2)) * b / 2, k),
        divide=F(bd.divide(r['a'], r['b']) * r['b'], k),
        euler=F(cx(bd.exp(1j * a) - bd.cos(a) - 1j * bd.sin(a)), k),
        int=bd.int is np.int64, float=bd.float is np.float64,
        isarr=bool(bd.is_array(np.ones(2))) and not bd.is_array([1., 2.])))


def sp_j(x, n):
    from scipy.special import jv
    return jv(n, x)


def op_bad(r, ag):
    name = None if r['name'] == 'None' else r['name']
    return dict(res=call_plain(legume.set_backend, name)[0])


def run_case(case):
    legume.set_backend('numpy')
    evs = []
    for r in case:
        if r['op'] == 'end':
            break
        if r['op'] == 'switch':
            s, o = call(legume.set_backend, r['to'])
            evs.append(dict(r, ok=s == 'ok', be=repr(bd)))
            continue
        ag = repr(bd) == 'AutogradBackend'
        f = globals()['op_' + r['op'].replace('extend2', 'extend')]
        s, o = call(f, r, ag)
        if s == 'ok' and o is None:
            continue
        evs.append(dict(r, ok=s == 'ok', be=repr(bd), ag=ag,
                        **(o if s == 'ok' else dict(err=o))))
        evs[-1]['id'] = '%s %s' % (r['op'], evs[-1]['be'])
    legume.set_backend('numpy')
    return evs


def body(c):
    c.model('KernelMC')
    c.model('KernelMC', 'KernelMC_conj', expect_violation='Adjoint')
    cases = c.generate('KernelGen', num=3000 if THOROUGH else 800, depth=28)
    traces = [t for t in pmap(run_case, cases, chunk=5) if t]
    c.sample(traces[0][:4])
    cnt = {}
    for t in traces:
        for e in t:
            k = e['op'] + (':' + e['be'][:5] if 'be' in e else '')
            cnt[k] = cnt.get(k, 0) + 1
    c.extra['calls'] = cnt
    c.judge('KernelTrace', traces, batch=max(20, len(traces) // 8))


if __name__ == '__main__':
    main('C25', body, assumptions=[
        'derivatives of eigenvectors are compared with central differences, '
        'at eigenvalues that are separate'])
