"""C01: stacking of layers and permittivity lookup."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import numpy as np
import legume
from vlib import lg

U = 60.


def make(sh):
    e = float(sh['eps'])
    x, y = sh['x'] / U, sh['y'] / U
    k = sh['k']
    if k == 'circle':
        return legume.Circle(eps=e, x_cent=x, y_cent=y, r=sh['r'] / U)
    if k == 'square':
        return legume.Square(eps=e, x_cent=x, y_cent=y, a=sh['r'] / U)
    if k == 'hex':
        return legume.Hexagon(eps=e, x_cent=x, y_cent=y, a=sh['r'] / U)
    if k == 'ellipse':
        return legume.Ellipse(eps=e, x_cent=x, y_cent=y, rx=sh['rx'] / U,
                              ry=sh['ry'] / U,
                              phi=math.atan2(sh['s'], sh['c']))
    return legume.Poly(eps=e, x_edges=[v / U for v in sh['xs']],
                       y_edges=[v / U for v in sh['ys']])


M = 10**6


def look(p):
    r = dict(zmin=fxl([a.z_min for a in p.layers], M),
             zmax=fxl([a.z_max for a in p.layers], M),
             d=fxl([a.d for a in p.layers], M),
             epsb=fxl([a.eps_b for a in p.layers], M),
             nsh=[len(a.shapes) for a in p.layers],
             nclad=[len(a.shapes) for a in p.claddings],
             lower=fx(p.claddings[0].z_max, M), upper=fx(p.claddings[1].z_min, M),
             qws=fxl([q.z for q in p.qws], M),
             bounds=fxl(p.get_eps_bounds(), M))
    r['repr'] = call(repr, p)[0] == 'ok'
    return r


def build(case):
    evs = []
    p = None
    for n, a in enumerate(case):
        op = a['op']
        if op == 'end':
            break
        e = dict(a)
        e['id'] = '%s#%d' % (op, n)
        if op == 'new':
            la = [v / U for v in a['lat']]
            def go():
                if a['lat'] == [60, 0, 0, 60] and a['el'] % 2:
                    lat = legume.Lattice('square')
                else:
                    lat = legume.Lattice(la[:2], la[2:])
                return legume.PhotCryst(lat, eps_l=a['el'], eps_u=a['eu'])
            st, p = call(go)
            e['ok'] = st == 'ok'
            if st != 'ok':
                return evs + [dict(e, err=p)]
        elif op == 'layer':
            st, v = call(p.add_layer, d=a['d'] / 100., eps_b=a['eps'])
            e['ok'] = st == 'ok'
        elif op == 'badlayer':
            st, v = call(p.add_layer, d=.3, eps_b=2., layer_type='unknown')
            e['ok'] = st == 'ok'
        elif op == 'shapes':
            def go():
                shs = [make(s) for s in a['shs']]
                return shs
            st, shs = call(go)
            if st != 'ok':
                evs.append(dict(op='shape', ok=False, id='%s' % a['shs'], err=shs))
                return evs
            arg = shs if len(shs) > 1 or a['ix'] != -1 else shs[0]
            if not a['valid']:
                arg = shs + ['not a shape']
            kw = {}
            if a['clad']:
                kw['cladding'] = {1: [0, 'l'], 2: [1, 'u'], 3: [2, 'x']}[
                    a['clad']][1 if a['name'] else 0]
            st, v = call(p.add_shape, arg, layer=a['ix'], **kw)
            e['ok'] = st == 'ok'
        elif op == 'qw':
            st, v = call(p.add_qw, z=a['z'] / 100., V_shapes=0., a=4e-7,
                         M=1e-31, E0=1., loss=0., osc_str=[1., 1., 1.])
            e['ok'] = st == 'ok'
        elif op == 'grid':
            per = {0: None, 1: 3, 2: [1, 5], 3: [4, 2]}[a['per']]
            st, v = call(p.lattice.xy_grid, Nx=a['nx'], Ny=a['ny'], periods=per)
            e['ok'] = st == 'ok'
            e['gx'] = fxl(np.array(v[0]) * 60, 10**4) if st == 'ok' else []
            e['gy'] = fxl(np.array(v[1]) * 60, 10**4) if st == 'ok' else []
        elif op == 'probe':
            if not a['pts']:
                continue
            P = np.array(a['pts'], float)
            X, Y, Z = P[:, 0] / U, P[:, 1] / U, P[:, 2] / 100.
            if n % 2 and len(P) % 2 == 0:      # any array shape
                X, Y, Z = [v.reshape(2, -1) for v in (X, Y, Z)]
            st, v = call(p.get_eps, (X, Y, Z))
            e['ok'] = st == 'ok' and np.shape(v) == X.shape
            e['eps'] = fxl(v, M) if st == 'ok' else []
        if not e.get('ok'):
            e['err'] = str(v)
        evs.append(e)
        st, v = call(look, p)
        if st == 'ok':
            evs.append(dict(op='look', id='after %s#%d' % (op, n), **v))
        else:
            evs.append(dict(op='look-failed', ok=False, id=op, err=v))
    return evs


def body(c):
    c.model('StructureMC')
    c.model('StructureMC', 'StructureMC_home', expect_violation='Periodic')
    cases = c.generate('StructureGen', num=2500 if THOROUGH else 260, depth=20)
    traces = pmap(build, cases, chunk=8)
    c.extra['events'] = {o: sum(e['op'] == o for t in traces for e in t)
                         for o in ('layer', 'shapes', 'qw', 'probe', 'grid', 'look')}
    c.extra['points'] = sum(len(e.get('pts', [])) for t in traces for e in t)
    c.sample(traces[0][:6])
    c.judge('StructureTrace', traces, batch=max(8, len(traces) // 8))


if __name__ == '__main__':
    main('C01', body, assumptions=[
        'points on the boundary of a shape or exactly at an interface are not judged'])
