"""C10: slab spectra and losses of equivalent descriptions."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import numpy as np
import legume
from vlib import lg, desc

N = 9
INDS = [[0, 1], [0, 1, 2, 3], [0, 2], [0, 1, 2], [1, 0], [0], [0, 1, 3]]


def spectrum(v, tr, w, gm, n):
    L, E = desc.scales(v)
    sim = legume.GuidedModeExp(desc.phc(v), gmax=gm, truncate_g=tr)
    sim.run(kpoints=desc.kpoint(v), gmode_inds=INDS[w % len(INDS)], numeig=n,
            verbose=False, gmode_step=1e-2 / L / np.sqrt(E),
            compute_im=False)
    F = 10**7 * desc.units(v)
    f = fxl(sim.freqs[0], F)
    sim.run_im()
    # one loss less than frequencies: the last mode may be one of a degenerate
    # pair that is cut off
    g = fxl(sim.freqs_im[0], 10**9 * desc.units(v))[:n - 1]
    return dict(f=[f], g=g)


def run_case(case):
    a = case[0]
    evs = []
    n0 = N
    for act in case:
        if act['op'] == 'end':
            break
        v = act['v']
        # the number of vectors of the basis sets how many modes there are
        n = 2 * N if act['op'] == 'double' else n0
        gm = desc.gmax(a['v']) / desc.scales(v)[0]
        st, o = call(spectrum, v, a['tr'], a['w'], gm, n)
        while st != 'ok' and 'Requested' in o and n > 3 and act['op'] in (
                'base', 'double'):
            # a small basis has fewer modes
            n -= 2
            n0 = min(n, n0)
            st, o = call(spectrum, v, a['tr'], a['w'], gm, n)
        e = dict(act, ok=st == 'ok', id=act['op'])
        e.update(o if st == 'ok' else dict(err=o, f=[], g=[]))
        evs.append(e)
        if act['op'] == 'base' and st != 'ok':
            break
    return evs


def body(c):
    c.model('EquivMC')
    c.model('EquivMC', 'EquivMC_unmoved', expect_violation='Unmoved')
    cases = c.generate('EquivGen', 'EquivGen_gme',
                       num=1500 if THOROUGH else 56, depth=12)
    traces = pmap(run_case, cases)
    cnt = {}
    for t in traces:
        for e in t:
            cnt[e['op']] = cnt.get(e['op'], 0) + 1
    c.extra['events'] = cnt
    c.sample(traces[0][:2])
    c.judge('EquivTrace', traces, batch=max(7, len(traces) // 8),
            consts=dict(tf=5, tg=100))


if __name__ == '__main__':
    main('C10', body, assumptions=[
        'losses are compared for modes that are not degenerate',
        'the cutoff is kept away from the length of a reciprocal vector'])
