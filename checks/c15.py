"""C15: polaritons: oscillators are conserved, limits, order of wells."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import numpy as np
import legume
from vlib import lg, desc, slab

A0 = 4e-7
HBAR, QE, ME, EPS0 = 1.054571817e-34, 1.602176634e-19, 9.1093837015e-31, \
    8.8541878128e-12
EV = 6.62607015e-34 * 299792458. / A0 / QE      # eV per unit of frequency


def strength(a, w, what, at):
    s = a['str'] * 1e14
    if what == 'dark' or what == 'off' and at:
        s = 0.
    return s * np.array(w['f'], float)


def mass(m):
    return .1 * m * ME


def wells(a, act):
    """The wells in the order in which they are added: (number, divide)"""
    out = []
    for i in act['perm']:
        n = act['m'] if act['what'] == 'split' and i == act['at'] else 1
        out += [(i, n)] * n
    return out


def build(a, act, e0):
    p = desc.phc(a['v'])
    for i, n in wells(a, act):
        w = a['wells'][i - 1]
        lay = p.layers[w['lay'] - 1]
        p.add_qw(z=lay.z_min + lay.d * w['at'] / 10, V_shapes=w['V'] / 1000,
                 a=A0, M=mass(w['m']), E0=e0 + w['e0'] / 1000,
                 loss=w['loss'] * 1e-5,
                 osc_str=strength(a, w, act['what'], act['at'] == i) / n)
    return legume.HopfieldPol(p, gmax=desc.gmax(a['v'], (1.53, 1.37, 1.63,
                                                         1.21)),
                              truncate_g=a['tr'])


def opts(a, act, n):
    gi = list(a['gi'])
    if act['what'] == 'order':
        gi = gi[::-1]
    return dict(gme_options=dict(gmode_inds=gi, numeig=n, verbose=False,
                                 gmode_step=1e-2),
                exc_options=dict(numeig_ex=a['mx'], verbose_ex=False),
                kpoints=2 * np.pi * np.array(a['k'], float)[:, None] / 20,
                verbose=False)


def oscillators(h):
    """Energies of the coupled oscillators, from the photons' electric fields
    and the excitons' wave functions."""
    g = h.gme
    w = (np.asarray(g.freqs[0]) + 1j * np.asarray(g.freqs_im[0])) * EV
    C, e = [], []
    for x in h.exc_list:
        f = np.sqrt(np.asarray(x.osc_str, float))
        for nu in range(len(x.eners[0])):
            W = x.ft_wavef_xy(0, nu)
            C.append([np.sum((f @ np.array(g.ft_field_xy('E', 0, n, x.z))) *
                             np.conj(W)) for n in range(len(w))])
            e.append(x.eners[0][nu])
    pre = np.sqrt(HBAR**2 * QE**2 / (4 * ME * EPS0)) / QE / np.sqrt(A0)
    C, e = -1j * pre * np.array(C).T, np.array(e)
    D = (C / np.real(e)) @ np.conj(C.T)
    K = np.block([[np.diag(w**2) + 4 * w[:, None] * D, -2j * w[:, None] * C],
                  [2j * e[:, None] * np.conj(C.T), np.diag(e**2)]])
    x = np.sqrt(np.linalg.eigvals(K).astype(complex))
    x = np.where(np.real(x) < 0, -x, x)
    return x[np.argsort(np.real(x))]


def sheet(a, e0):
    """Slab without pattern and one well in resonance with its fundamental TE
    mode: the polaritons of the sheet of oscillators, from the jump of the
    magnetic field across the sheet, and those of legume, as distances from
    the resonance (10^-10 eV)."""
    s = a['v']['s']
    w = a['wells'][0]
    eps = [s['el']] + [l['eps'] for l in s['layers']] + [s['eu']]
    d = [l['d'] / desc.UZ for l in s['layers']]
    k = 2 * np.pi * np.array([a['k'][0], 0.]) / 20
    g = k[0]
    lo, hi = g / np.sqrt(max(eps[1:-1])), g / np.sqrt(max(eps[0], eps[-1]))
    r = slab.roots(g, eps, d, 'te', lo, hi, nmax=1) if lo < hi else []
    if not r or r[0] > .999 * hi:
        return []
    w0 = r[0] / 2 / np.pi * EV
    p = legume.PhotCryst(legume.Lattice('square'), eps_l=eps[0], eps_u=eps[-1])
    for e, t in zip(eps[1:-1], d):
        p.add_layer(d=t, eps_b=e)
    lay = p.layers[w['lay'] - 1]
    z = lay.z_min + lay.d * w['at'] / 10
    # weak, so that the sheet does not change the profile of the mode
    f = 1e12 * np.array([w['f'][0], 1 + w['f'][1], w['f'][2]], float)
    m = 1e4 * ME
    kin = HBAR**2 * (g / A0)**2 / 2 / m / QE
    p.add_qw(z=z, V_shapes=0, a=A0, M=m, E0=w0 - kin, loss=0, osc_str=f)
    h = legume.HopfieldPol(p, gmax=.5)
    h.run(gme_options=dict(gmode_inds=[0], numeig=1, verbose=False),
          exc_options=dict(numeig_ex=1, verbose_ex=False),
          kpoints=k[:, None], verbose=False)
    # the sheet: u'(+) - u'(-) = -(w/c)^2 chi u with
    # chi = e^2 f / (m eps0 a) / (w0^2 - w^2)
    i = w['lay']
    t = d[i - 1] * w['at'] / 10
    e2 = eps[:i + 1] + eps[i:]
    d2 = d[:i - 1] + [t, d[i - 1] - t] + d[i:]
    chi = HBAR**2 * QE**2 * f[1] / (ME * EPS0 * A0) / QE**2

    def far(E):
        om = 2 * np.pi * E / EV
        u, du = 1., np.sqrt(g**2 - e2[0] * om**2)
        for j in range(1, len(e2) - 1):
            x = np.sqrt(complex(e2[j] * om**2 - g**2))
            c, sn = np.cos(x * d2[j - 1]), np.sin(x * d2[j - 1])
            u, du = u * c + du * sn / x, -x * u * sn + du * c
            if j == i:
                du = du - om**2 * chi / (w0**2 - E**2) * u
        return (du + np.sqrt(g**2 - e2[-1] * om**2) * u).real
    # the polariton below the resonance: the only zero there
    from scipy.optimize import brentq
    lo = w0 - .03
    lo = max(lo, g / np.sqrt(max(eps[1:-1])) / 2 / np.pi * EV)
    if far(lo) * far(w0 - 1e-9) > 0:
        return []
    root = brentq(far, lo, w0 - 1e-9, xtol=1e-14)
    return [[fx(w0 - h.eners[0][0], 10**10), fx(w0 - root, 10**10)]]


def run_case(case):
    a = case[0]
    evs = [dict(op='base', id='base')]
    nph, e0 = a['n'], None
    for act in case[1:]:
        if act['op'] == 'end':
            break

        def go():
            nonlocal nph, e0
            if e0 is None:
                # excitons near one of the photons
                g = legume.GuidedModeExp(desc.phc(a['v']), gmax=desc.gmax(
                    a['v'], (1.53, 1.37, 1.63, 1.21)), truncate_g=a['tr'])
                while True:
                    st, o = call(g.run, **opts(a, act, nph)['gme_options'],
                                 kpoints=opts(a, act, 1)['kpoints'])
                    if st == 'ok':
                        break
                    if nph == 1 or 'Requested' not in o:
                        raise RuntimeError(o)
                    nph -= 1
                f = g.freqs[0]
                while nph > 1:
                    # not in the middle of a group of equal ones
                    st, o = call(g.run, **opts(a, act, nph + 1)['gme_options'],
                                 kpoints=opts(a, act, 1)['kpoints'])
                    if st != 'ok' or g.freqs[0][nph] - g.freqs[0][nph - 1] > 1e-3:
                        break
                    nph -= 1
                e0 = max(.6, float(f[min(a['mode'], nph - 1)]) * EV)
            h = build(a, act, e0)
            h.run(**opts(a, act, nph))
            x = oscillators(h)
            nums = [i for i, _ in wells(a, act)]
            ex = [np.real(y.eners[0]) for y in h.exc_list]
            sh = sheet(a, e0) if a['flat'] and act['what'] == 'plain' else []
            scale = 100 if a['str'] <= 1000 else 1000
            return dict(
                e=fxl(h.eners[0]), im=fxl(h.eners_im[0], 10**9), n=nph,
                fe=fxl(h.fractions_ex[0], 10**6), tol=scale * 3,
                fp=fxl(h.fractions_ph[0], 10**6),
                ph=fxl(np.asarray(h.gme.freqs[0]) * EV),
                ex=[v for y in ex for v in fxl(y)],
                exat=[fxl(ex[nums.index(i)]) for i in
                      range(1, len(a['wells']) + 1)],
                ce=fxl(np.real(x)), ci=fxl(np.imag(x), 10**9), sheet=sh)
        st, o = call(go)
        e = dict(op='run', ok=st == 'ok', what=act['what'], at=act['at'],
                 m=act['m'], id='%s str=%s' % (act['what'], a['str']))
        evs.append(dict(e, **o) if st == 'ok' else dict(e, err=o))
    return evs


def body(c):
    c.model('PolaritonMC')
    c.model('PolaritonMC', 'PolaritonMC_last', expect_violation='Same')
    cases = c.generate('PolGen', num=2000 if THOROUGH else 220, depth=9)
    traces = pmap(run_case, cases, chunk=1)
    rs = [e for t in traces for e in t if e.get('ok')]
    c.extra['runs'] = len(rs)
    c.extra['sheets'] = sum(len(e['sheet']) for e in rs)
    c.extra['by_kind'] = {k: sum(e['what'] == k for e in rs) for k in
                          ('plain', 'order', 'dark', 'split', 'off')}
    c.sample(traces[0][1])
    c.judge('PolTrace', traces, batch=max(8, len(traces) // 8))


if __name__ == '__main__':
    main('C15', body)
