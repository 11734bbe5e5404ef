"""C18: the optimizers follow their stated contract."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import copy
import numpy as np
import autograd.numpy as npa
from autograd.extend import primitive, defvjp
from legume.minimize import Minimize

NONE = 10**9


@primitive
def bend(x, c, l, r):
    """Down with slope -l until c, from there with slope r"""
    return np.where(x < c, -l, r) * (x - c)


defvjp(bend, lambda ans, x, c, l, r: lambda g: g * np.where(x < c, -l, r),
       argnums=[0])


class Stop(Exception):
    pass


def value(x):
    return np.array(getattr(x, '_value', x), dtype=float)


def run_case(case):
    kn = case[0]['kn']
    c = np.array([k['c'] for k in kn]) / 1000
    lft = np.array([k['l'] for k in kn], float)
    rgt = np.array([k['r'] for k in kn], float)
    log, now = [], {}
    F6, X6 = (lambda v: fx(np.clip(v, -2000, 2000), 10**6)), (lambda v: fxl(
        np.clip(v, -2000, 2000), 10**6))   # far away is far away

    def objective(p, *rest):
        u = now['u']
        rest, opt = list(rest), None
        if u['ps']:
            opt = rest.pop()
        own = opt is None or opt is now['opt']
        it = opt.iteration if own and opt is not None else -1
        x = value(p)
        if u['fail'] and len(log) + 1 == u['fail']:
            log.append(dict(x=X6(x), f=0, s=[0] * len(x), args=[], it=it))
            raise Stop('objective cannot be evaluated')
        w = float(rest[0]) if rest else 1.
        if u['how'] == 'adam':
            if opt is not None:
                w = w * (1 + opt.iteration % 2)
            f = w * npa.sum(bend(p, c, lft, rgt))
            s = [int(round(v)) for v in w * np.where(x < c, -lft, rgt)]
        else:
            wt = lft + np.abs(rgt) + 1
            if case[0]['wave']:
                f = w * npa.sum(wt * (npa.sin(7 * (p - c)) + npa.sqrt(1 + (p - c)**2)))
            else:
                f = w * npa.sum(wt * (p - c)**2)
            s = [0] * len(x)
        log.append(dict(x=X6(x), f=F6(value(f)), s=s, it=it,
                        args=[int(a) for a in rest]))
        return f

    opt = Minimize(objective)
    now['opt'] = opt
    evs = [dict(op='base', id='base', kn=kn, wave=case[0]['wave'])]
    for u in case[1:]:
        if u['op'] == 'end':
            break
        if u['defs']:
            # the default rates and step
            u = dict(u, h1=9, h2=9, st=10)
        now['u'] = u
        del log[:]
        p0 = [v / 1000 for v in u['p']]
        if u['arr']:
            p0 = np.array(p0)
        side = lambda v: None if v == NONE else v / 1000
        bs = [tuple(side(v) for v in b) for b in u['b']]
        bounds = {'none': None, 'pair': list(bs[0]), 'list': bs}[u['kind']]
        args = (list if u['N'] % 2 else tuple)(u['args'])
        kw = dict(Nepochs=u['N'], bounds=bounds)
        if args or u['ps']:
            kw['args'] = args
        if u['ps']:
            kw['pass_self'] = True
        calls = []
        if u['cb']:
            kw['callback'] = lambda o: calls.append(dict(
                it=o.iteration, of=X6(o.of_list), x=X6(o.params),
                own=o is opt))
        if u['how'] == 'adam':
            if not u['defs']:
                kw['step_size'] = u['st'] / 1000
                for b, k in (('beta1', 'h1'), ('beta2', 'h2')):
                    if u[k] != 9:
                        kw[b] = u[k] / 2
        else:
            kw['maxfun'] = u['maxfun']
            kw['res'] = u['res']
        before = copy.deepcopy((p0, bounds, args))
        failed = False

        def go():
            nonlocal failed
            try:
                return getattr(opt, u['how'])(p0, **kw)
            except Stop:
                failed = True
                return None
        st, r = call(go)
        e = dict(op='use', ok=st == 'ok', id='%s N=%s %s' % (
            u['how'], u['N'], u['kind']), failed=failed)
        if st != 'ok':
            evs.append(dict(e, err=r))
            continue
        same = (np.array_equal(before[0], p0) and type(before[0]) is type(p0)
                and before[1] == bounds and before[2] == args)
        e.update({k: u[k] for k in ('how', 'b', 'p', 'N', 'st', 'h1', 'h2',
                                    'args', 'ps', 'cb', 'maxfun', 'fail')})
        e.update(kept=bool(same), calls=calls, own=True, x=[], of=[], res=False,
                 rx=[], rf=0, rit=0)
        seen = copy.deepcopy(log)
        if failed:
            seen.pop()
        if not failed:
            e['x'], e['of'] = X6(r[0]), X6(r[1])
            e['own'] = (X6(opt.params) == e['x'] and X6(opt.of_list) == e['of'])
            if u['how'] == 'lbfgs' and u['res']:
                e.update(res=True, rx=X6(r[2].x), rf=F6(r[2].fun),
                         rit=int(getattr(r[2], 'nit', 0)))
            elif len(r) != 2:
                e['own'] = False
        e['seen'] = seen
        evs.append(e)
    return evs


def body(c):
    c.model('OptimMC')
    c.model('OptimMC', 'OptimMC_last', expect_violation='Returned')
    c.model('OptimMC', 'OptimMC_keep', expect_violation='Afresh')
    cases = c.generate('OptimGen', num=40000 if THOROUGH else 3000, depth=9)
    traces = pmap(run_case, cases, chunk=8)
    rs = [e for t in traces for e in t if e['op'] == 'use']
    c.extra['uses'] = len(rs)
    c.extra['evaluations'] = sum(len(e.get('seen', ())) for e in rs)
    c.extra['failed_on_purpose'] = sum(e['failed'] for e in rs)
    c.sample(traces[0][1])
    c.judge('OptimTrace', traces, batch=max(8, len(traces) // 8))


if __name__ == '__main__':
    main('C18', body)
