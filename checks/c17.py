"""C17: paths in the Brillouin zone."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import copy, re
import numpy as np
import legume

LATS = dict(square=('square', ), hexagonal=('hexagonal', ),
            rectangular=([1., 0], [0, 1.4]), custom=([1., 0.1], [.3, 1.4]))


def unit(lat):
    return np.array([np.pi / 60,
                     np.pi / 60 / (np.sqrt(3) if lat == 'hexagonal' else 1)])


def point(r, pt, kind):
    if pt['name']:
        return pt['name'].upper() if r['case'] == 'upper' else pt['name']
    p = np.array(pt['p']) * unit(r['lat'])
    return p if kind == 'array' else [float(x) for x in p]


def label(s, lat):
    m = re.match(r'\$\\pi\$ \[(-?[\d.]+),(-?[\d.]+)\]', s)
    if m is None:
        return dict(name=s.lower(), p=[0, 0])
    p = np.array([float(x) for x in m.groups()]) * np.pi / unit(lat)
    return dict(name='', p=fxl(p, 100))


def ask(r):
    lat = legume.Lattice(*LATS[r['lat']])
    pts = [point(r, p, r['kind'] if i % 2 else 'list')
           for i, p in enumerate(r['pts'])]
    ns = r['ns'][0] if len(r['ns']) == 1 and r['scalar'] else list(r['ns'])
    kw = {}
    if r['symm']['name'] != 'default':
        kw['symm_g'] = point(r, r['symm'], r['kind'])
    p0, n0, k0 = copy.deepcopy((pts, ns, kw))
    st, o = call(lat.bz_path, pts, ns, **kw)
    e = dict(r=r, ok=st == 'ok', id='path')
    if st != 'ok':
        return dict(e, err=o)

    def obs():
        a = np.deg2rad(np.array(o['angles'], float))
        return dict(
            k=[fxl(x, 10**5)
               for x in (o['kpoints'].T / unit(r['lat'])[None, :])],
            inds=[int(i) for i in o['indexes']], ki=fxl(o['k_indexes'], 10**4),
            cs=[fxl([np.cos(x), np.sin(x)], 10**4) for x in a],
            labels=[label(x, r['lat']) for x in o['labels']],
            untouched=repr((p0, n0, k0)) == repr((pts, ns, kw)))
    st, q = call(obs)
    return dict(e, **q) if st == 'ok' else dict(e, ok=False, err=q)


def run_case(case):
    return [ask(r) for r in case]


def body(c):
    c.model('BzPathMC')
    c.model('BzPathMC', 'BzPathMC_extra', expect_violation='Agree')
    cases = c.generate('BzPathGen', num=20000 if THOROUGH else 1200, depth=9)
    traces = pmap(run_case, cases, chunk=50)
    c.extra['requests'] = dict(
        accepted=sum(e['ok'] for t in traces for e in t),
        rejected=sum(not e['ok'] for t in traces for e in t))
    c.sample(traces[0][:2])
    c.judge('BzPathTrace', traces, batch=max(50, len(traces) // 8))


if __name__ == '__main__':
    main('C17', body)
