"""C22: exported layouts contain the pattern of the structure."""
import sys, os, struct, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import numpy as np
import legume
from legume import gds
from vlib import desc

U = desc.U


def real8(b):
    """Excess-64 real number of GDSII"""
    v = int.from_bytes(b[1:], 'big') / 2.**56 * 16.**((b[0] & 127) - 64)
    return -v if b[0] & 128 else v


def read(name):
    """Reader of GDSII files: units, boundaries and numbers of the rest"""
    data = open(name, 'rb').read()
    out = dict(polys=[], cells=0, other=0)
    p, el = 0, None
    while p < len(data):
        n, rec = struct.unpack('>HH', data[p:p + 4])
        body = data[p + 4:p + n]
        rec >>= 8
        if rec == 3:
            out['unit'] = (real8(body[:8]), real8(body[8:]))
        elif rec == 5:
            out['cells'] += 1
        elif rec == 8:
            el = {}
        elif rec in (9, 0xa, 0xb, 0xc, 0x15, 0x2d):
            out['other'] += 1
        elif rec == 0xd and el is not None:
            el['l'] = struct.unpack('>h', body)[0]
        elif rec == 0xe and el is not None:
            el['t'] = struct.unpack('>h', body)[0]
        elif rec == 0x10 and el is not None:
            v = struct.unpack('>%di' % (len(body) // 4), body)
            el['xs'], el['ys'] = list(v[:-2:2]), list(v[1:-2:2])
        elif rec == 0x11 and el is not None:
            out['polys'].append(el)
            el = None
        elif rec == 4:
            return out
        p += n
    raise ValueError('file ends early')


def shape(sh):
    if sh['k'] == 'fourier':
        return legume.FourierShape(eps=sh['eps'], x_cent=sh['x'] / U,
                                   y_cent=sh['y'] / U,
                                   f_as=np.array([sh['r'] / U, .01]))
    s = desc.shape(sh, 1., 1.)
    if sh['k'] in ('square', 'hex') and sh['q'] > 1:
        s.rotate(np.arctan2(sh['s'], sh['c']))
    return s


def run_case(case):
    evs, phcs = [], {}
    tmp = tempfile.mkdtemp(prefix='c22_')
    try:
        for n, a in enumerate(case):
            op = a['op']
            if op == 'end':
                break
            name = os.path.join(tmp, 'f%d.gds' % (n % 2))

            def go():
                if op == 'new':
                    la = [v / U for v in a['lat']]
                    p = phcs[a['p']] = legume.PhotCryst(
                        legume.Lattice(la[:2], la[2:]))
                    for sh in a['clad']:
                        p.add_shape(shape(sh), cladding=n % 2)
                elif op == 'layer':
                    phcs[a['p']].add_layer(d=.2, eps_b=12.)
                elif op == 'shapes':
                    phcs[a['p']].add_shape([shape(s) for s in a['shs']],
                                           layer=a['ix'])
                elif op == 'export':
                    kw = dict(unit=a['m'] * 1e-9, tolerance=a['tol'] / 1e3)
                    if a['defaults']:
                        kw.pop('tolerance')
                        if a['m'] == 1000:
                            kw = {}
                    gds.generate_gds(phcs[a['p']], name, **kw)
                else:
                    la = [v / U for v in a['lat']]
                    kw = dict(unit=a['m'] * 1e-9, cell_bound=a['bound'])
                    if a['form'] != 'default':
                        lv = [v / 2 for v in a['levels']]
                        kw['levels'] = lv[0] if a['form'] == 'scalar' else lv
                    elif a['m'] == 1000:
                        kw.pop('unit')
                    if kw['cell_bound'] and n % 2:
                        kw.pop('cell_bound')
                    gds.generate_gds_raster(
                        legume.Lattice(la[:2], la[2:]),
                        np.array(a['v'], float), name, **kw)
                if op in ('export', 'raster'):
                    d = read(name)
                    u = d['unit']
                    # user units to database units, of 1e-9 m after this
                    d['unit'] = fx(u[0] * a['m'] * 1e-9 / u[1], 1000)
                    for el in d['polys']:
                        for w in ('xs', 'ys'):
                            el[w] = [round(v * u[1] / 1e-9) for v in el[w]]
                    return d
                return {}
            st, r = call(go)
            e = dict(a, ok=st == 'ok', id='%s#%d' % (op, n))
            evs.append(dict(e, **r) if st == 'ok' else dict(e, err=r))
    finally:
        shutil.rmtree(tmp)
    return evs


def body(c):
    c.model('GdsMC')
    c.model('GdsMC', 'GdsMC_keep', expect_violation='Exact')
    c.model('GdsMC', 'GdsMC_skip', expect_violation='Refused')
    cases = c.generate('GdsGen', num=3000 if THOROUGH else 160, depth=14)
    traces = pmap(run_case, cases, chunk=8)
    evs = [e for t in traces for e in t]
    c.extra['exports'] = sum(e['op'] == 'export' and e['ok'] for e in evs)
    c.extra['refused'] = sum(e['op'] == 'export' and not e['ok'] for e in evs)
    c.extra['rasters'] = sum(e['op'] == 'raster' for e in evs)
    c.extra['polygons'] = sum(len(e.get('polys', [])) for e in evs)
    c.sample(traces[0][:5])
    c.judge('GdsTrace', traces, batch=max(8, len(traces) // 8))


if __name__ == '__main__':
    main('C22', body, assumptions=[
        'points within 1/60 of the boundary of a shape are not judged',
        'rasters whose regions touch the border of the cell are not judged'])
