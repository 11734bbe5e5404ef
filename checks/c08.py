"""C08: separation of even and odd modes with respect to a vertical plane."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import numpy as np
import legume
from vlib import fields

LATS = dict(square=('square', ), hexagonal=('hexagonal', ),
            rectangular=([1., 0], [0, 1.2]))


def shape(lat, s):
    A = np.array([lat.a1, lat.a2], float).T / 60
    c = A @ s['u']
    if s['kind'] == 'circle':
        return legume.Circle(eps=s['e'], x_cent=c[0], y_cent=c[1],
                             r=s['r'] / 60)
    v = (A @ np.array(s['vs'], float).T) + c[:, None]
    # Poly wants its vertices counter-clockwise
    x, y = v
    if np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y) < 0:
        v = v[:, ::-1]
    return legume.Poly(eps=s['e'], x_edges=v[0], y_edges=v[1])


def build(a):
    lat = legume.Lattice(*LATS[a['lat']])
    p = legume.PhotCryst(lat, eps_l=a['el'], eps_u=a['eu'])
    for l in a['layers']:
        p.add_layer(d=l['d'] / 100, eps_b=l['eps'])
        for s in l['shapes']:
            p.add_shape(shape(lat, s))
    return p


def solve(a, r, sy, n):
    p = build(a)
    sim = legume.GuidedModeExp(p, truncate_g=a['tr'],
                               gmax=1.6 if a['lat'] != 'hexagonal' else 1.9)
    lat = p.lattice
    B = np.array([lat.b1, lat.b2], float).T
    k = r['back'] * r['t'] / 20 * (B @ np.array(r['dir'], float))
    ang = float(r['a'] if r['back'] > 0 or r['t'] == 0 else r['a'] - 180)
    if r['turn'] and ang - 360 >= -360:
        ang -= 360
    elif r['t'] and r['sp']:
        ang = float(np.angle(k[0] + 1j * k[1], deg=True))
    kw = {}
    if sy != 'none':
        kw = dict(kz_symmetry=sy, angles=np.array([ang]), symm_thr=1e-4,
                  use_sparse=r['sp'])
    sim.run(kpoints=k[:, None], gmode_inds=list(a['gi']), numeig=n,
            compute_im=False, verbose=False, gmode_step=1e-2, **kw)
    return sim


def run_one(a, r):
    n = solve(a, r, 'none', 1).eigvecs[0].shape[0]
    none = solve(a, r, 'none', n)
    both = solve(a, r, 'both', n)
    lab = [int(x) for x in np.ravel(both.kz_symms)]
    ne, no = lab.count(1), lab.count(-1)
    even = solve(a, r, 'even', ne)
    odd = solve(a, r, 'odd', no)
    lat = both.phc.lattice
    Ai = np.linalg.inv(np.array([lat.a1, lat.a2], float).T)
    lay = both.phc.layers[r['z'] % len(both.phc.layers)]
    z = lay.z_min + r['z'] / 100 * lay.d
    F = []
    for i in range(n):
        # the static mode at the zone centre has no direction of its own
        if both.freqs[0, i] < 1e-3:
            F.append([])
            continue
        f = np.array(both.ft_field_xy(r['fd'], 0, i, z))
        f[:2] = Ai @ f[:2]
        if not np.abs(f).max() > 1e-9:
            F.append([])
            continue
        F.append(fields.pack(f / np.abs(f).max(), 10**5))
    cut = a['el'] != a['eu'] or any(g > 1 for g in a['gi']) or r['t'] == 0
    return dict(
        none=fxl(none.freqs[0]), both=fxl(both.freqs[0]), lab=lab,
        even=fxl(even.freqs[0]), odd=fxl(odd.freqs[0]),
        labok=bool(np.all(np.asarray(even.kz_symms) == 1) and
                   np.all(np.asarray(odd.kz_symms) == -1) and
                   np.shape(even.kz_symms) == (1, ne)),
        g=fields.indexes(both, lat), F=F, cutoff=cut,
        nte=sum(g % 2 == 0 for g in a['gi']),
        ntm=sum(g % 2 == 1 for g in a['gi']))


def run_case(case):
    a = case[0]
    evs = []
    for r in case[1:]:
        if r['op'] == 'end':
            break
        st, o = call(run_one, a, r)
        e = dict({k: r[k] for k in ('op', 'a', 'm', 't', 'fd')}, lat=a['lat'],
                 full=a['full'], ok=st == 'ok',
                 id='%s %s a=%d t=%d %s' % (a['lat'], a['gi'], r['a'], r['t'],
                                            'sparse' if r['sp'] else 'dense'))
        evs.append(dict(e, **(o if st == 'ok' else dict(err=o, case=case))))
    return evs


def body(c):
    c.model('MirrorMC')
    c.model('MirrorMC', 'MirrorMC_both', expect_violation='Partition')
    cases = c.generate('MirrorGen', num=2500 if THOROUGH else 120, depth=7)
    traces = pmap(run_case, cases, chunk=1)
    c.sample([{k: v for k, v in e.items() if k not in ('F', 'g')}
              for e in traces[0]][:2])
    c.judge('MirrorTrace', traces, batch=max(10, len(traces) // 8))


if __name__ == '__main__':
    main('C08', body)
