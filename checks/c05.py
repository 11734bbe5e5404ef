"""C05: what a simulation object shows depends on its last run only."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import numpy as np
import legume
from vlib import lg

STRUCT = {
    'S1': dict(lat='square', eps_l=1., eps_u=2.,
               layers=[(0.3, 10., [('circle', 1., 0, 0, .25)]),
                       (0.2, 5., [('square', 2., 0, 0, .3)])]),
    'S2': dict(lat=([1, 0], [0, 1.2]), eps_l=2.25, eps_u=1.,
               layers=[(0.25, 12., [('circle', 1., 0, 0, .3),
                                    ('circle', 3., .5, 0, .1)])],
               clad=[[('circle', 4., 0, 0, .2)], []]),
    'S3': dict(lat='hexagonal', eps_l=1., eps_u=1.,
               layers=[(0.4, 11., [('circle', 1., 0, 0, .28)])]),
}
GM = dict(gmax=1.5)
KS = {'A': np.array([[.5, 1.3, -2.], [.2, .9, .6]]),
      'B': np.array([[.6, 2.1], [0., 0.]]),
      'C': np.array([[1.1], [-.7]])}
GI = {'0': [0], '01': [0, 1], '012': [0, 1, 2], '0123': [0, 1, 2, 3],
      '103': [1, 0, 3]}
QW = dict(V_shapes=0.02, a=4e-7, M=1e-31, E0=1.2, loss=1e-4)
OSC = np.array([4e16, 4e16, 1e16])


def build(kind, st, tr):
    ph = lg.phc(STRUCT[st])
    if kind == 'gme':
        return legume.GuidedModeExp(ph, truncate_g=tr, **GM)
    if kind == 'pwe':
        return legume.PlaneWaveExp(ph.layers[0], **GM)
    if kind == 'ese':
        return legume.ExcitonSchroedEq(ph, z=.1, truncate_g=tr, **QW, **GM)
    ph.add_qw(z=.05, osc_str=OSC, **QW)
    ph.add_qw(z=.2, osc_str=2 * OSC, **{**QW, 'E0': 1.3})
    return legume.HopfieldPol(ph, truncate_g=tr, **GM)


def gme_kw(a, im=None):
    return dict(gmode_inds=list(GI[a['gi']]), numeig=a['ne'],
                compute_im=a['im'] if im is None else im, verbose=False,
                kz_symmetry=None if a['sy'] == 'none' else a['sy'],
                use_sparse=a['sp'], only_gmodes=a['only'],
                eig_solver=a['sol'], eig_sigma=a['sig'] / 10.,
                gmode_compute=a['gc'], gmode_npts=60, gmode_step=1e-2,
                eps_eff=a['eff'])


def invocation(kind, a, im=None):
    k = KS[a['ks']].copy()
    if kind == 'gme':
        kw = gme_kw(a, im)
        if a['sy'] != 'none':
            kw['angles'] = np.zeros(k.shape[1])
        return dict(kpoints=k, **kw)
    if kind == 'pwe':
        return dict(kpoints=k, pol=a['pol'], numeig=a['ne'])
    if kind == 'ese':
        return dict(kpoints=k, numeig_ex=a['ne'], verbose_ex=False)
    g = gme_kw(dict(a, sol='eigh'), True)
    if a['sy'] != 'none':
        g['angles'] = np.zeros(k.shape[1])
    return dict(gme_options=g, exc_options=dict(numeig_ex=2, verbose_ex=False),
                kpoints=k, verbose=False)


def relevant(kind, a):
    if kind == 'gme':
        r = {f: a[f] for f in ('ks', 'gi', 'ne', 'sy', 'sp', 'only', 'sol',
                               'gc', 'eff', 'sig')}
    elif kind == 'pwe':
        r = {f: a[f] for f in ('ks', 'pol', 'ne')}
    elif kind == 'ese':
        r = {f: a[f] for f in ('ks', 'ne')}
    else:
        r = {f: a[f] for f in ('ks', 'gi', 'ne', 'sy', 'sp', 'only', 'gc',
                               'eff', 'sig')}
    return r


def key_of(kind, st, tr, a):
    return '|'.join([kind, st, tr] + ['%s=%s' % (f, v) for f, v in
                                      relevant(kind, a).items()])


def freeze(x):
    if isinstance(x, dict):
        return {k: freeze(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return ('nd', x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v) for v in x])
    return repr(x)


def mat(x, scale=10**8, cap=None):
    x = np.asarray(x)
    if x.size == 0:
        return []
    x = np.real(x.reshape(x.shape[0], -1))
    if cap:
        x = np.minimum(x, cap)
    return [fxl(r, scale) for r in x]


def look(kind, ob):
    """The results an object shows."""
    r = dict(symm=[], fim=[], unb=[], coup=[], chan=[], modes=[])
    if kind == 'gme':
        F = np.asarray(ob.freqs)
        r['freqs'] = mat(F)
        r['symm'] = [[int(v) for v in np.ravel(x)] for x in
                     np.asarray(ob.kz_symms)]
        r['kpts'] = mat(ob.kpoints)
        r['fim'] = mat(ob.freqs_im, 10**9)
        fim = np.asarray(ob.freqs_im)
        unb = np.asarray(ob.unbalance_sp)
        if unb.size and fim.size:
            unb = np.where(fim > 1e-9, unb, .5)
        r['unb'] = mat(unb)
        if len(ob.rad_coup):
            for ik in range(len(F)):
                ok = lg.masked(F[ik])
                r['coup'].append(fxl(
                    [min(20., float(np.sqrt(np.sum(np.abs(ob.rad_coup[c][ik][m])**2))))
                     if ok[m] else 0
                     for m in range(F.shape[1]) for c in
                     ('l_te', 'l_tm', 'u_te', 'u_tm')]))
                r['chan'].append([int(np.shape(ob.rad_gvec[c][ik][m])[1])
                                  for m in range(F.shape[1]) for c in 'lu'])
        z = ob.phc.layers[0].d * .4
        for ik in range(len(F)):
            ok = lg.masked(F[ik])
            row = []
            for m in range(F.shape[1]):
                f = ob.ft_field_xy('H', ik, m, z)
                row += [float(np.sum(np.abs(c)**2)) if ok[m] else 0. for c in f]
            r['modes'].append(fxl(row))
    elif kind in ('pwe', 'ese'):
        F = np.asarray(ob.freqs if kind == 'pwe' else ob.eners)
        r['freqs'] = mat(F)
        r['kpts'] = mat(ob.kpoints)
        for ik in range(len(F)):
            ok = lg.masked(np.real(F[ik]))
            V = np.asarray(ob.eigvecs[ik])
            row = [np.abs(V[:, m])**2 if ok[m] else 0 * np.abs(V[:, m])
                   for m in range(F.shape[1])]
            r['modes'].append(fxl(np.array(row)))
    else:
        n = min(len(x) for x in ob.eners) if len(ob.eners) else 0
        F = np.asarray([x[:n] for x in ob.eners])
        r['freqs'] = mat(F)
        r['kpts'] = mat(ob.kpoints)
        fe = []
        for ik in range(len(F)):
            ok = lg.masked(F[ik])
            fe.append([float(ob.fractions_ex[ik][m]) if ok[m] else 0
                       for m in range(n)] +
                      [float(ob.fractions_ph[ik][m]) if ok[m] else 0
                       for m in range(n)])
        r['modes'] = mat(fe)
    return r


def query(kind, ob, q):
    k, m = q['k'], q['m']
    if kind == 'gme':
        F = np.asarray(ob.freqs)
        k = min(k, len(F) - 1)
        ok = lg.masked(F[k])[m]
        w = 1. if ok else 0.
        z = ob.phc.layers[0].d * .7
        if q['q'] == 'rad':
            fi, rc, rv = ob.compute_rad(k, [m, 0])
            return fxl([float(np.ravel(fi)[0]) * w] + [rv['l'][0].shape[1],
                        rv['u'][0].shape[1]])
        if q['q'] == 'radsp':
            a = ob.compute_rad_sp(k, [m])
            return fxl([float(a[i][0]) * w for i in range(3)])
        if q['q'] == 'field':
            f, _, _ = ob.get_field_xy('e', k, m, z, Nx=3, Ny=3)
            return fxl(np.nan_to_num(sum(np.abs(v)**2 for v in f.values())) * w, 10**7)
        if q['q'] == 'fieldxz':
            f, _, _ = ob.get_field_xz('h', k, m, .2, Nx=3, Nz=4)
            return fxl(np.nan_to_num(sum(np.abs(v)**2 for v in f.values())) * w, 10**7)
        if q['q'] == 'eps':
            return fxl(ob.get_eps_xy(z=z, Nx=4, Ny=4)[0], 10**7)
    if kind == 'pwe' and q['q'] in ('field', 'fieldxz'):
        k = min(k, len(ob.freqs) - 1)
        w = 1. if lg.masked(ob.freqs[k])[m] else 0.
        f, _, _ = ob.get_field_xy('d', k, m, Nx=3, Ny=3)
        return fxl(np.nan_to_num(sum(np.abs(v)**2 for v in f.values())) * w, 10**6)
    if kind == 'pwe' and q['q'] == 'eps':
        return fxl(ob.get_eps_xy(Nx=4, Ny=4)[0], 10**7)
    if kind == 'ese' and q['q'] in ('field', 'fieldxz'):
        k = min(k, len(ob.eners) - 1)
        w = 1. if lg.masked(np.real(ob.eners[k]))[m] else 0.
        f, _, _ = ob.get_wavef_xy(k, m, Nx=3, Ny=3)
        return fxl(w * np.abs(f)**2, 10**6)
    if kind == 'ese' and q['q'] == 'eps':
        return fxl(ob.get_pot_xy(Nx=4, Ny=4)[0], 10**8)
    repr(ob)
    return [0]


def qkey(rk, q):
    return '%s?%s,%s,%s' % (rk, q['q'], q['k'], q['m'])


def reference(task):
    """A new object in a process that has done nothing else."""
    (kind, st, tr, a), qs = task
    def go():
        ob = build(kind, st, tr)
        ob.run(**invocation(kind, a, True))
        out = look(kind, ob)
        return out, {json.dumps(q): query(kind, ob, q) for q in qs}
    return call(go)


def bad_invocation(kind, what, a):
    if kind != 'gme':
        kw = invocation(kind, dict(a, ne=3))
        if what == 'badpol':
            kw['pol'] = 'xx'
        elif kind == 'pol':
            kw['exc_options'] = dict(nonsense=3)
        else:
            kw['nonsense'] = 3
        return kw
    kw = invocation(kind, a)
    if what == 'toomany':
        kw['numeig'] = 5000
    elif what == 'symmfoo':
        kw.update(kz_symmetry='foo', angles=np.zeros(3))
    elif what == 'noangles':
        kw.update(kz_symmetry='both')
    elif what == 'offaxis':
        kw.update(kz_symmetry='both', angles=np.array([0., 17., 0.]))
    elif what == 'badeff':
        kw['eps_eff'] = 'nonsense'
    elif what == 'customunset':
        kw['eps_eff'] = 'custom'
    elif what == 'badsolver':
        kw['eig_solver'] = 'nonsense'
    elif what == 'kzeigsh':
        kw.update(kz_symmetry='both', eig_solver='eigsh', eig_sigma=.3,
                  angles=np.zeros(3))
    else:
        kw['nonsense'] = 3
    return kw


def grad_elsewhere():
    import autograd.numpy as npa
    from autograd import grad
    legume.set_backend('autograd')
    def of(r):
        lat = legume.Lattice('square')
        p = legume.PhotCryst(lat)
        p.add_layer(d=.5, eps_b=8.)
        p.layers[-1].add_shape(legume.Circle(eps=1., r=r))
        g = legume.GuidedModeExp(p, gmax=1.01)
        g.run(kpoints=np.array([[.4], [.3]]), gmode_inds=[0], numeig=2,
              verbose=False, compute_im=False)
        return g.freqs[0, 1]
    return float(grad(of)(.2))


def is_empty(kind, ob):
    names = dict(gme=('freqs', 'freqs_im', 'kz_symms', 'eigvecs', 'rad_coup',
                      'rad_gvec', 'unbalance_sp'), pwe=('freqs', 'eigvecs'),
                 ese=('eners', 'eigvecs'),
                 pol=('eners', 'eners_im', 'fractions_ex', 'fractions_ph'))
    return all(len(getattr(ob, n)) == 0 for n in names[kind])


def session(case):
    """Step one behaviour of the specification through real objects."""
    legume.set_backend('numpy')
    bk = 'numpy'
    obs, evs = {}, []
    n = 0
    for act in case:
        n += 1
        op, o = act['op'], act['o']
        if op == 'new':
            st, v = call(build, act['kind'], act['st'], act['tr'])
            if st == 'ok':
                obs[o] = [act['kind'], act['st'], act['tr'], v, None, False]
                e = call(is_empty, act['kind'], v)
                empty = e == ('ok', True)
            else:
                obs.pop(o, None)
                empty = False
            evs.append(dict(op='new', o=o, kind=act['kind'], st=act['st'],
                            tr=act['tr'], ok=st == 'ok', empty=empty,
                            err='' if st == 'ok' else v))
            if st != 'ok':
                return evs
        elif op == 'run':
            kind, st_, tr, ob = obs[o][:4]
            kw = invocation(kind, act['args'])
            before = freeze(kw)
            st, v = call(ob.run, **kw)
            k = key_of(kind, st_, tr, act['args'])
            im = kind == 'gme' and act['args']['im']
            evs.append(dict(op='run', o=o, key=k, im=im, ok=st == 'ok',
                            same=freeze(kw) == before, id=k,
                            err='' if st == 'ok' else v))
            if st != 'ok':
                return evs
            obs[o][4], obs[o][5] = k, im
        elif op == 'bad':
            kind, st_, tr, ob = obs[o][:4]
            kw = bad_invocation(kind, act['what'], act['args'])
            before = freeze(kw)
            st, v = call(ob.run, **kw)
            evs.append(dict(op='bad', o=o, what=act['what'], ok=st == 'ok',
                            same=freeze(kw) == before,
                            id=kind + ':' + act['what']))
            obs[o][4], obs[o][5] = None, False
        elif op == 'runim':
            st, v = call(obs[o][3].run_im)
            evs.append(dict(op='runim', o=o, ok=st == 'ok', id=obs[o][4],
                            err='' if st == 'ok' else v))
            if st != 'ok':
                return evs
        elif op == 'query':
            st, v = call(query, obs[o][0], obs[o][3], act)
            evs.append(dict(op='query', o=o, ok=st == 'ok',
                            key=qkey(obs[o][4], act),
                            id=qkey(obs[o][4], act),
                            val=v if st == 'ok' else [],
                            err='' if st == 'ok' else v))
        elif op == 'backend':
            bk = act['b']
            st, v = call(legume.set_backend, bk)
            evs.append(dict(op='backend', o=o, b=bk, ok=st == 'ok'))
        elif op == 'grad':
            st, v = call(grad_elsewhere)
            call(legume.set_backend, bk)
            evs.append(dict(op='grad', o=o, ok=st == 'ok',
                            err='' if st == 'ok' else v))
        for oo, (kind, st_, tr, ob, k, im) in sorted(obs.items()):
            if k is None:
                continue
            st, v = call(look, kind, ob)
            if st != 'ok':
                v = dict(freqs=[], symm=[], fim=[], unb=[], coup=[], chan=[],
                         modes=[], kpts=[], err=v)
            evs.append(dict(op='look', o=oo, id='%s after %s' % (k, op), **v))
    return evs


def body(c):
    c.model('SessionImpl')
    for st in ('inds', 'eps', 'rad', 'modes'):
        c.model('SessionImpl', 'SessionImpl_no_' + st,
                expect_violation='Visible')
    num = 1500 if THOROUGH else 128
    cases = c.generate('SessionGen', num=num, depth=20)
    # the runs and queries the behaviours contain
    tasks = {}
    for case in cases:
        ob, cur = {}, {}
        case[:] = [a for a in case if isinstance(a, dict)]
        for a in case:
            if a['op'] == 'new':
                ob[a['o']] = (a['kind'], a['st'], a['tr'])
            elif a['op'] == 'run':
                t = ob[a['o']] + (a['args'],)
                cur[a['o']] = key_of(*t)
                tasks.setdefault(cur[a['o']], (t, []))
            elif a['op'] == 'query':
                q = dict(q=a['q'], k=a['k'], m=a['m'])
                if q not in tasks[cur[a['o']]][1]:
                    tasks[cur[a['o']]][1].append(q)
    keys = sorted(tasks)
    res = pmap_fresh(reference, [tasks[k] for k in keys])
    refs, queries = {}, {}
    for k, (st, v) in zip(keys, res):
        if st != 'ok':
            c.violation('SessionTrace', 'reference-run-accepted', [k], 1,
                        dict(id=k, err=v))
            refs[k] = dict(freqs=[], symm=[], fim=[], unb=[], coup=[],
                           chan=[], modes=[], kpts=[])
            for q in tasks[k][1]:
                queries[qkey(k, q)] = []
            continue
        refs[k] = v[0]
        for q, val in v[1].items():
            queries[qkey(k, json.loads(q))] = val
    traces = pmap(session, cases)
    c.extra['distinct_runs'] = len(keys)
    c.extra['ops'] = {o: sum(e['op'] == o for t in traces for e in t)
                      for o in ('new', 'run', 'bad', 'runim', 'query', 'grad',
                                'backend', 'look')}
    c.sample([{k: e[k] for k in e if k in ('op', 'o', 'key', 'ok', 'id')}
              for e in traces[0]])

    def sub(ts):
        ks = {e['key'] for t in ts for e in t if 'key' in e}
        return dict(refs={k: refs[k] for k in ks if k in refs},
                    queries={k: queries[k] for k in ks if k in queries})
    step = 16
    from concurrent.futures import ThreadPoolExecutor
    parts = [traces[i::max(1, len(traces) // step)]
             for i in range(max(1, len(traces) // step))]
    for i, p in enumerate(parts):
        cs = sub(p)
        cs['refs'].setdefault('-', refs[keys[0]])
        cs['queries'].setdefault('-', [0])
        c.judge('SessionTrace', p, consts=cs, label=str(i))


if __name__ == '__main__':
    main('C05', body, assumptions=[
        'the reference of a run is the same code on a new object in a new '
        'process: errors common to both are the business of other properties',
        'eigenvectors are compared through phase-independent quantities, and '
        'only for modes separated from their neighbours by 1e-4'])
