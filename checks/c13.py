"""C13: slabs without pattern."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import numpy as np
import legume
from vlib import lg, desc, fields, slab

INDS = [[0, 1], [0, 1, 2, 3], [0, 2], [0, 1, 2], [1], [0], [0, 1, 3], [1, 3],
        [3, 0]]


def kap2(lat, k, m):
    det = lat[0] * lat[3] - lat[1] * lat[2]
    ab, sg = abs(det), 1 if det > 0 else -1
    x = k[0] * ab + 240 * sg * (m[0] * lat[3] - m[1] * lat[1])
    y = k[1] * ab + 240 * sg * (m[1] * lat[0] - m[0] * lat[2])
    return x * x + y * y


def modes(eps, d, g, pol, orders, step):
    """Frequencies of the orders asked for that are guided, and whether the
    search can be expected to find exactly these."""
    lo, hi = g / np.sqrt(max(eps[1:-1])), g / np.sqrt(max(eps[0], eps[-1]))
    if lo * (1 + 1e-6) >= hi:
        return [], lo > hi * (1 + 1e-6)
    r = slab.roots(g, eps, d, pol, lo, hi, nmax=max(orders) + 2)
    sure = (slab.nodes(hi * (1 - 1e-5), g, eps, d, pol) ==
            slab.nodes(hi, g, eps, d, pol) or len(r) > max(orders) + 1)
    sure = sure and bool(np.all(np.diff(r) > 1.1 * step))
    sure = sure and not (r and r[0] < lo * (1 + 1e-8))
    return [r[i] / 2 / np.pi for i in orders if i < len(r)], sure


def run_case(case):
    a = case[0]
    v = a['v']
    evs = [dict(a, id='base')]
    gm = desc.gmax(v)

    def new():
        p = desc.phc(v)
        return p, legume.GuidedModeExp(p, gmax=gm, truncate_g=a['tr'])
    st, o = call(new)
    if st != 'ok':
        return evs + [dict(op='run', id='new', ok=False, err=o)]
    phc, sim = o
    lat = phc.lattice
    idx = fields.indexes(sim, lat)
    KD = fields.kd(v)
    L = [int(x) // 5 for x in v['s']['lat']]
    lays = [phc.claddings[0]] + phc.layers + [phc.claddings[1]]
    if a['kind'] == 'only':
        # the averaged slab: eps(G=0) of every layer, from areas of the cell
        eps = np.array([float(l.eps_avg) for l in lays])
    else:
        eps = np.array([v['s']['el']] + [l['eps'] for l in v['s']['layers']] +
                       [v['s']['eu']], float)
    d = np.array([l['d'] / desc.UZ for l in v['s']['layers']])
    step = 1e-2
    for act in case[1:]:
        if act['op'] == 'end':
            break
        inds = INDS[act['inds'] - 1]
        ks = 2 * np.pi * np.array(act['ks'], float).T / 20
        kw = dict(gmode_inds=list(inds), verbose=False, gmode_step=step,
                  only_gmodes=a['kind'] == 'only')

        def run():
            n = act['n'] if act['n'] < 99 else 10**4
            while n > 0:
                st, o = call(sim.run, kpoints=ks, numeig=n, **kw)
                if st == 'ok':
                    break
                if 'Requested' not in o:
                    raise RuntimeError(o)
                if n > 1000:
                    # how many there are, k-point by k-point
                    n = len(idx) * len(inds)
                else:
                    n -= 1
            at = []
            for j, k in enumerate(act['ks']):
                te = sorted(i // 2 for i in inds if i % 2 == 0)
                tm = sorted(i // 2 for i in inds if i % 2 == 1)
                tab, sure = [], True
                for k2 in sorted({kap2(L, k, m) for m in idx}):
                    g = max(2 * np.pi * np.sqrt(k2) / KD, 1e-8)
                    x, y, s1, s2 = [], [], True, True
                    if te:
                        x, s1 = modes(eps, d, g, 'te', te, step)
                    if tm:
                        y, s2 = modes(eps, d, g, 'tm', tm, step)
                    if k2 == 0:
                        s1 = s2 = True
                    sure = sure and s1 and s2
                    tab.append(dict(k2=k2, te=fxl(x), tm=fxl(y)))
                f = np.asarray(sim.freqs[j])
                ok = lg.masked(f)
                fl = []
                z = float(lays[1].z_max) - lays[1].d * act['zf'] / 100
                for i in sorted({m * len(f) // 10 for m in act['mo']}):
                    if not ok[i]:
                        continue
                    H = np.array(sim.ft_field_xy('H', j, i, z))
                    if not np.abs(H).max() > 1e-6:
                        continue
                    fl.append(dict(i=int(i) + 1, H=fields.pack(
                        H / np.abs(H).max(), 10**5)))
                nb = sim.eigvecs[j].shape[0]
                at.append(dict(k=k, f=fxl(f), im=fxl(sim.freqs_im[j], 10**9),
                               g=idx, tab=tab, sure=bool(sure),
                               all=len(f) == nb, fields=fl))
            return at
        st, o = call(run)
        e = dict(op='run', ok=st == 'ok', id='run %s %s' %
                 (a['kind'], v['s']['lat']))
        evs.append(dict(e, at=o) if st == 'ok' else dict(e, err=o))
    return evs


def body(c):
    lg.EDGES = (False, True)
    c.model('FoldingMC')
    c.model('FoldingMC', 'FoldingMC_equal', expect_violation='Complete')
    cases = c.generate('FoldGen', num=1500 if THOROUGH else 70, depth=7)
    traces = pmap(run_case, cases, chunk=1)
    ats = [x for t in traces for e in t for x in e.get('at', [])]
    c.extra['k_points'] = len(ats)
    c.extra['judged_completely'] = sum(x['sure'] for x in ats)
    c.extra['fields'] = sum(len(x['fields']) for x in ats)
    c.sample({k: x for k, x in traces[0][1].get('at', [{}])[0].items()
              if k != 'fields'})
    c.judge('FoldTrace', traces, batch=max(8, len(traces) // 8))


if __name__ == '__main__':
    main('C13', body)
