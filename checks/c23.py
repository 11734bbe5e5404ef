"""C23: drawings show the results they are made of."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import re
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.collections import (LineCollection, PathCollection,
                                    PolyCollection)
import legume
from vlib import lg, desc

HC = 6.62607015e-34 * 299792458. / 1.602176634e-19     # eV m
ME = 9.1093837015e-31
A0 = HC / 3
SIX = 10**6


def logq(q):
    q = np.asarray(q, float)
    return [int(round(1000 * np.log10(x))) if x > 0 else -99999
            for x in q.ravel()]


def parity(rgba):
    return [1 if c[0] > c[2] + .1 else -1 if c[2] > c[0] + .1 else 0
            for c in rgba]


def build(a):
    """phc, simulation"""
    v = a['v']
    phc = desc.phc(v)
    kind = a['kind']
    H = sum(l['d'] for l in v['s']['layers']) / desc.UZ
    ks = [np.array(a['k0'])]
    for s in a['steps']:
        ks.append(ks[-1] + np.array(s[:2]))
    ks = np.array(ks, float).T
    kp = 2 * np.pi * ks / 20
    gm = desc.gmax(v, (1.53, 1.37, 1.63, 1.21))
    qz = [H * (i + .31) / (a['nqw'] + .2) for i in range(a['nqw'])]
    opt = dict(V_shapes=.02, a=A0, M=.2 * ME, E0=1.4, loss=1e-5,
               osc_str=[1e17, 1e17, 0])
    for z in qz if kind != 'pol' else (qz or [H / 2.7]):
        phc.add_qw(z=z, **opt)
    sim = None
    if kind == 'gme':
        sim = legume.GuidedModeExp(phc, gmax=gm, truncate_g=a['tr'])
        kw = {}
        if a['kz'] != 'none':
            kw = dict(kz_symmetry=a['kz'], angles=np.zeros(a['nk']),
                      symm_thr=1e-4)
        sim.run(kpoints=kp, numeig=a['ne'], gmode_inds=[0, 1],
                compute_im=a['im'], gmode_step=1e-2, verbose=False, **kw)
    elif kind == 'pwe':
        sim = legume.PlaneWaveExp(phc.layers[0], gmax=gm)
        sim.run(kpoints=kp, numeig=a['ne'], pol='te' if a['im'] else 'tm')
    elif kind == 'ese':
        sim = legume.ExcitonSchroedEq(phc, z=phc.layers[0].d / 3, gmax=gm,
                                      truncate_g=a['tr'], **opt)
        sim.run(kpoints=kp, numeig_ex=a['ne'], verbose_ex=False)
    elif kind == 'pol':
        sim = legume.HopfieldPol(phc, gmax=gm, truncate_g=a['tr'])
        sim.run(gme_options=dict(gmode_inds=[0, 1], numeig=a['ne'],
                                 gmode_step=1e-2, verbose=False),
                exc_options=dict(numeig_ex=a['ne'], verbose_ex=False),
                kpoints=kp, verbose=False)
    return phc, sim, ks, H


def look(a, phc, sim):
    """The results as they are now."""
    if a['kind'] == 'phc':
        return [[len(l.shapes) for l in phc.layers],
                fxl([l.eps_avg for l in phc.layers], SIX)]
    if a['kind'] in ('gme', 'pwe'):
        out = [fxl(np.ravel(sim.freqs), SIX),
               fxl(np.ravel(sim.freqs_im), 10**7)
               if a['kind'] == 'gme' and len(sim.freqs_im) else [],
               [int(x) for x in np.ravel(sim.kz_symms)]
               if a['kz'] != 'none' else []]
    elif a['kind'] == 'ese':
        out = [fxl(np.ravel(np.real(sim.eners)), SIX)]
    else:
        out = [fxl(np.ravel(sim.eners), SIX), fxl(np.ravel(sim.eners_im), SIX),
               fxl(np.ravel(sim.fractions_ex), SIX)]
    out.append(fxl(np.ravel(sim.kpoints), SIX))
    return out


def markers(ax):
    """Everything drawn as markers: x, y, the collection it belongs to"""
    out = []
    for ln in ax.get_lines():
        for x, y in ln.get_xydata():
            out.append((x, y, None, 0))
    for c in ax.collections:
        if isinstance(c, PathCollection):
            c.update_scalarmappable()
            for i, (x, y) in enumerate(np.asarray(c.get_offsets())):
                out.append((x, y, c, i))
    return out


def at(seq, i):
    return seq[i % len(seq)]


def bands(a, act, phc, sim, ks):
    pol = a['kind'] == 'pol'
    ax0 = plt.subplots()[1] if act['ax'] else None
    num, den = a['conv']
    if pol:
        q = act['q'] and not act['frac']
        ax = legume.viz.pol_bands(sim, Q=act['q'], fraction=act['frac'],
                                  cone=act['cone'], k_units=act['units'],
                                  ax=ax0)
        f, fim, conv, lconv = sim.eners, sim.eners_im, [1, 1], [3, 1]
    else:
        q = act['q'] and a['kind'] == 'gme'
        kw = dict(eV=True, a=HC * den / num) if act['ev'] else {}
        ax = legume.viz.bands(sim, Q=q, cone=act['cone'],
                              k_units=act['units'], ax=ax0,
                              show_symmetry=act['symm'], **kw)
        f, fim = sim.freqs, sim.freqs_im if a['kind'] == 'gme' else []
        conv = [num, den] if act['ev'] else [1, 1]
        lconv = conv
    both = a['kz'] == 'both' and act['symm'] and not pol
    f = np.asarray(f, float)
    col = [[0] * f.shape[1] for _ in f]
    if q:
        Q = f / 2 / (np.asarray(fim, float) + 1e-16)
        lq = np.array(logq(Q)).reshape(f.shape)
        col = (lq + (SIX * np.asarray(sim.kz_symms).astype(int) if both
                     else 0)).tolist()
    elif both:
        col = (SIX * np.asarray(sim.kz_symms).astype(int)).tolist()
    elif pol and act['frac']:
        col = np.rint(1000 * np.asarray(sim.fractions_ex)).astype(
            int).tolist()
    ax.figure.canvas.draw()
    pts, scale = [], [0, 0]
    for x, y, c, i in markers(ax):
        cc = 0
        if c is not None and c.get_array() is not None:
            arr = np.ravel(c.get_array())
            if q:
                cc = logq(arr[i])[0]
                if both:
                    cc += SIX * parity([at(c.get_edgecolor(), i)])[0]
                vm = logq(c.norm.vmax)[0]
                w = np.unique(Q[(Q > 0) & (Q < 1e10)])
                scale = [vm, 4000 if pol else
                         logq(w.max())[0] if w.size > 1 else vm]
            elif both:
                cc = SIX * parity([at(c.get_facecolor(), i)])[0]
            elif pol and act['frac']:
                cc = int(round(1000 * arr[i]))
                scale = fxl([c.norm.vmin, c.norm.vmax], 10)
                scale = [10 * scale[0] + scale[1], 10]
        pts.append([fx(x, SIX), fx(y, SIX), cc])
    low, top = [], 0
    for c in ax.collections:
        if isinstance(c, PolyCollection) and not isinstance(c,
                                                            PathCollection):
            vs = np.concatenate([p.vertices for p in c.get_paths()])
            top = fx(min(vs[:, 1].max(), 2000), SIX)
            low = [[fx(x, SIX), fx(y, 10**5)] for x, y in vs if y < 2000]
    cl = [phc.claddings[0].eps_avg, phc.claddings[-1].eps_avg]
    return dict(pts=pts, f=[fxl(r, SIX) for r in f], col=col, conv=conv,
                lconv=lconv, units=act['units'], cone=act['cone'],
                light=a['kind'] != 'pwe', low=low, top=top, scale=scale,
                ncl=fxl(np.sqrt(cl), 10**4),
                kl=fxl(np.hypot(*ks) / 20, 10**5),
                xlim=fxl(ax.get_xlim(), SIX), ylim=fxl(ax.get_ylim(), SIX),
                same=ax0 is None or ax is ax0)


def pixels(what, im, ref, place, wanted=None, tol=3, lim=None, mask=None):
    a = np.ma.filled(np.ma.asarray(im.get_array(), float), np.nan)
    ref = np.asarray(ref, float)
    if mask is not None and a.shape == ref.shape:
        a, ref = np.where(mask, 0, a), np.where(mask, 0, ref)
    s = 10**6 if np.nanmax(np.abs(ref)) < 1000 else 1
    if not 1e-3 < np.abs(ref).max():
        s = 10**6 / max(np.abs(ref).max(), 1e-30)
    return dict(what=what, a=fxl(a.ravel(), s), b=fxl(ref.ravel(), s)
                if a.shape == ref.shape else [], tol=tol,
                frame=fxl(im.get_extent(), 10**4), place=fxl(place, 10**4),
                up=im.origin == 'lower',
                lim=[] if wanted is None else fxl(
                    im.get_clim() if lim is None else lim, s),
                wanted=[] if wanted is None else fxl(wanted, s))


def sure(get, X, Y, Z):
    """values, and where they depend on the last digits"""
    r = get(X, Y, Z)
    mask = np.zeros(r.shape, bool)
    for d in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (1, -1, -1)):
        for e in (1e-6, -1e-6):
            mask |= np.abs(get(X + d[0] * e, Y + d[1] * e, Z + d[2] * e) - r) \
                > 1e-9
    return r, mask


def section(phc, plane, w, nx, ny, im, what, wanted=None):
    """im shows phc.get_eps in the plane (x, y or z is w)"""
    def get(X, Y, Z):
        return np.asarray(phc.get_eps((X, Y, Z)), float)
    if plane == 'z':
        gx, gy = phc.lattice.xy_grid(Nx=nx, Ny=ny)
    else:
        gx = phc.lattice.xy_grid(Nx=nx, Ny=nx)[0 if plane == 'y' else 1]
        gy = phc.z_grid(Nz=ny)
    place = [gx[0], gx[-1], gy[0], gy[-1]]
    U, V = np.meshgrid(np.linspace(*place[:2], nx),
                       np.linspace(*place[2:], ny))
    W = w * np.ones(U.shape)
    r, mask = sure(get, *dict(z=(U, V, W), y=(U, W, V), x=(W, U, V))[plane])
    return pixels(what, im, r, place, wanted=wanted, mask=mask)


def all_images(fig):
    return [im for ax in fig.axes for im in ax.get_images()]


def bars(figs=None):
    """colour bars and images on all figures"""
    figs = figs or [plt.figure(n) for n in plt.get_fignums()]
    return [sum(getattr(ax, '_colorbar', None) is not None
                for f in figs for ax in f.axes),
            sum(len(all_images(f)) for f in figs)]


def named(axs, clad):
    """titles of sections through the layers"""
    t = [ax.get_title() for ax in axs]
    if clad:
        ok = 'lower cladding' in t[0] and 'upper cladding' in t[-1]
        t = t[1:-1]
    else:
        ok = True
    n = [re.search(r'layer (\d+)', x) for x in t]
    return ok and all(n) and [int(x[1]) - int(n[0][1]) for x in n] == list(
        range(len(n)))


def gridspec(act):
    if not act['spec']:
        return {}
    fig = plt.figure()
    return dict(fig=fig, gridspec=fig.add_gridspec(1, 2)[0, 1])


def draw(a, act, phc, sim, ks, H):
    op = act['op']
    nx, ny = act['nx'], act['ny']
    z = -.4 + (H + .8) * act['at'][2] / 100
    x, y = (act['at'][0] - 50) / 37., (act['at'][1] - 50) / 37.
    lay = phc.layers[act['lay'] % len(phc.layers)]
    struct = phc if sim is None else sim
    if op in ('bands', 'pol_bands'):
        return bands(a, act, phc, sim, ks)
    out = dict(n=1, wells=[], wantwells=[], titles=True, cbar=act['cbar'])
    if op == 'recip':
        legume.viz.reciprocal(sim)
        xy = np.concatenate([l.get_xydata() for l in plt.gca().get_lines()])
        return dict(a=[fxl(p, 10**4) for p in xy],
                    b=[fxl(p, 10**4) for p in np.asarray(sim.gvec).T])
    if op == 'shapes':
        ax = plt.subplots()[1] if act['ax'] else None
        i = act['lay'] % (len(phc.layers) + 2)
        lay = ([phc.claddings[0]] + phc.layers + [phc.claddings[1]])[i]
        s = a['v']['s']
        shs = ([s['clad'][0]] + [l['shapes'] for l in s['layers']] +
               [s['clad'][1]])[i]
        legume.viz.shapes(lay, ax=ax, pad=act['pad'])
        ax = ax or plt.gca()
        gx, gy = lay.lattice.xy_grid(Nx=7, Ny=8)
        return dict(view=fxl([*ax.get_xlim(), *ax.get_ylim()], 600),
                    cell=fxl([gx[0], gx[-1], gy[0], gy[-1]], 600),
                    equal=ax.get_aspect() in (1, 'equal'), lines=[[fxl(p, 600) for p in l.get_xydata()]
                           for l in ax.get_lines()], shs=shs, pad=act['pad'])
    if op in ('eps', 'eps_xy', 'eps_xz', 'eps_yz'):
        fig, ax = plt.subplots()
        clim = [1.5, 9.5] if act['clim'] else None
        kw = dict(ax=ax if act['ax'] else None, cbar=act['cbar'], clim=clim)
        fns = [len(fig.axes)]
        if op == 'eps':
            legume.viz.eps(lay, Nx=nx, Ny=ny, **kw)
        elif op == 'eps_xy':
            r = legume.viz.eps_xy(phc, z=z, Nx=nx, Ny=ny, plot=act['plot'],
                                  **kw)
        elif op == 'eps_xz':
            r = legume.viz.eps_xz(phc, y=y, Nx=nx, Nz=ny, plot=act['plot'],
                                  **kw)
        else:
            r = legume.viz.eps_yz(phc, x=x, Ny=nx, Nz=ny, plot=act['plot'],
                                  **kw)
        ims = [im for f in map(plt.figure, plt.get_fignums())
               for im in all_images(f)]
        out['bars'] = bars()
        if op != 'eps' and not act['plot']:
            # nothing is drawn, the values are returned
            out['titles'] = not ims
            ims = [plt.figure().add_subplot().imshow(
                r, origin='lower', extent=[0, 1, 0, 1])]
        elif op != 'eps':
            out['titles'] = np.array_equal(np.asarray(ims[0].get_array()), r)
        out['ims'] = []
        for im in ims:
            if op == 'eps':
                gx, gy = lay.lattice.xy_grid(Nx=nx, Ny=ny)
                X, Y = np.meshgrid(gx, gy)
                r, mask = sure(lambda X, Y, Z: np.asarray(
                    lay.get_eps((X, Y)), float), X, Y, 0 * X)
                o = pixels(op, im, r, [gx[0], gx[-1], gy[0], gy[-1]],
                           wanted=clim, mask=mask)
            else:
                pl = dict(eps_xy='z', eps_xz='y', eps_yz='x')[op]
                o = section(phc, pl, dict(x=x, y=y, z=z)[pl], nx, ny, im, op,
                            wanted=clim if act['plot'] else None)
                if not act['plot']:
                    o['frame'] = o['place']
            out['ims'].append(o)
        return out
    if op == 'structure':
        legume.viz.structure(struct, Nx=nx, Ny=ny, Nz=nx + 1,
                             cladding=act['clad'], cbar=act['cbar'],
                             xy=act['xy'], xz=act['xz'], yz=act['yz'],
                             **gridspec(act))
        fig = plt.gcf()
        axs = [ax for ax in fig.axes if ax.get_images()]
        out['bars'] = bars([fig])
        bounds = phc.get_eps_bounds()
        plan = [('y', 0., 'xz')] * act['xz'] + [('x', 0., 'yz')] * act['yz']
        out['n'] = len(plan)
        nsec = len(plan)
        if act['xy']:
            mids = [(l.z_min + l.z_max) / 2 for l in phc.layers]
            if act['clad']:
                mids = [-1.] + mids + [H + 1.]
            plan += [('z', m, 'xy%d' % i) for i, m in enumerate(mids)]
            out['n'] += len(mids)
        out['ims'] = []
        for (pl, w, what), ax in zip(plan, axs):
            n1, n2 = (nx, ny) if pl == 'z' else (
                nx if pl == 'y' else ny, nx + 1)
            out['ims'].append(section(phc, pl, w, n1, n2, ax.get_images()[0],
                                      'structure-' + what, wanted=bounds))
        if act['xy']:
            out['titles'] = named(axs[nsec:], act['clad'])
        out['titles'] = out['titles'] and all(
            w in ax.get_title() for w, ax in zip(
                ['xz'] * act['xz'] + ['yz'] * act['yz'], axs))
        if len(axs) != len(plan):
            out['ims'] = out['ims'] + [out['ims'][0]] * (
                len(axs) - len(plan)) if len(axs) > len(plan) else out['ims']
        wz = [] if a['kind'] == 'gme' else sorted(
            q.z for q in (phc.qws if sim is None else sim.exc_list))
        out['wantwells'] = [fxl(wz, 10**5)] * nsec
        out['wells'] = [fxl(sorted(
            p.vertices[0][1] for c in ax.collections
            if isinstance(c, LineCollection) for p in c.get_paths()), 10**5)
            for ax in axs[:nsec]]
        return out
    if op == 'eps_ft':
        legume.viz.eps_ft(sim, Nx=nx, Ny=ny, cladding=act['clad'],
                          cbar=act['cbar'], **gridspec(act))
        lays = [sim.layer] if a['kind'] == 'pwe' else phc.layers
        if act['clad'] and a['kind'] == 'gme':
            lays = [phc.claddings[0]] + lays + [phc.claddings[1]]
        ims = all_images(plt.gcf())
        out['bars'] = bars([plt.gcf()])
        if a['kind'] == 'gme':
            out['titles'] = named([im.axes for im in ims], act['clad'])
        out['n'], out['ims'] = len(lays), []
        lims = [im.get_clim() for im in ims]
        for l, im in zip(lays, ims):
            r, gx, gy = sim.get_eps_xy(Nx=nx, Ny=ny, z=l.z_mid)
            ok = all(lim == lims[0] for lim in lims) and \
                lims[0][0] <= np.real(r).min() + 1e-9 and \
                lims[0][1] >= np.real(r).max() - 1e-9
            out['ims'].append(pixels(op, im, np.real(r),
                                     [gx[0], gx[-1], gy[0], gy[-1]],
                                     lim=[float(ok)], wanted=[1.]))
        return out
    if op == 'pot_ft':
        legume.viz.pot_ft(sim, Nx=nx, Ny=ny, cbar=act['cbar'],
                          **gridspec(act))
        im = all_images(plt.gcf())
        out['bars'] = bars([plt.gcf()])
        r, gx, gy = sim.get_pot_xy(Nx=nx, Ny=ny)
        out['ims'] = [pixels(op, i, np.real(r), [gx[0], gx[-1], gy[0], gy[-1]])
                      for i in im]
        return out
    kind = act['k'] - 1
    mind = (act['m'] - 1) % np.shape(
        sim.eners if op == 'wavef' else sim.freqs)[1]
    if op == 'wavef':
        val = dict(re='re', im='im', abs='abs2')[act['val']]
        fig = legume.viz.wavef(sim, kind, mind, val=val, N1=nx, N2=ny,
                               cbar=act['cbar'])
        r, gx, gy = sim.get_wavef_xy(kind, mind, Nx=nx, Ny=ny)
        r = dict(re=np.real(r), im=np.imag(r), abs2=np.abs(r)**2)[val]
        m = np.abs(r).max()
        out['bars'] = bars([fig])
        t = re.search(r'k_\{(\d+)\}.*band (\d+), E = ([\d.E+-]+)',
                      fig.axes[0].get_title())
        en = float(np.real(np.asarray(sim.eners)[kind, mind]))
        out['titles'] = bool(t) and [int(t[1]), int(t[2])] == [kind, mind] \
            and abs(float(t[3]) - en) < .0051 * abs(en)
        out['ims'] = [pixels(op + val, im, r, [gx[0], gx[-1], gy[0], gy[-1]],
                             wanted=None if m < 1e-7 else
                             [0 if val == 'abs2' else -m, m])
                      for im in all_images(fig)]
        return out
    assert op == 'field'
    f = float(np.asarray(sim.freqs)[kind, mind])
    fd = act['fd'] if f > 1e-3 else 'H'
    pl = act['pl'] if a['kind'] == 'gme' else 'z'
    w = dict(x=x, y=y, z=z)[pl]
    if a['kind'] == 'pwe':
        w = 0.
    kw = {} if a['kind'] == 'pwe' and act['cbar'] else {pl: w}
    fig = legume.viz.field(sim, fd, kind, mind, periodic=act['per'],
                           component=act['comp'], val=act['val'], N1=nx,
                           N2=ny, cbar=act['cbar'], eps=act['outline'],
                           eps_levels=[3., 6.], **kw)
    get = dict(x='get_field_yz', y='get_field_xz', z='get_field_xy')[pl]
    n2 = dict(x=dict(Ny=nx, Nz=ny), y=dict(Nx=nx, Nz=ny),
              z=dict(Nx=nx, Ny=ny))[pl]
    fi, g1, g2 = getattr(sim, get)(fd, kind, mind, w, component=act['comp'],
                                   **n2)
    U, V = np.meshgrid(g1, g2)
    k = 2 * np.pi * ks[:, kind] / 20
    X, Y = dict(x=(w, U), y=(U, w), z=(U, V))[pl]
    ph = 1 if act['per'] else np.exp(1j * (k[0] * X + k[1] * Y))
    out['n'], out['ims'] = len(act['comp']), []
    out['bars'] = bars([fig])
    axs = [ax for ax in fig.axes if ax.get_images()]
    for c, ax in zip(act['comp'], axs):
        im = ax.get_images()[0]
        r = np.asarray(fi[c]) * ph
        r = dict(re=np.real, im=np.imag, abs=np.abs)[act['val']](r)
        m = np.abs(r).max()
        if m < 1e-7:
            r, m = 0 * r, None
        out['ims'].append(pixels('field-%s-%s-%s' % (pl, act['val'], c), im,
                                 r, [g1[0], g1[-1], g2[0], g2[-1]],
                                 wanted=None if m is None else
                                 [0 if act['val'] == 'abs' else -m, m],
                                 mask=None if m else np.ones(r.shape, bool)))
        t = ax.get_title()
        mt = re.search(r'f = (-?[\d.]+)', t)
        ok = bool(mt) and abs(float(mt[1]) - f) < .0051 and \
            '{%s%d}' % (c, mind) in t and 'k_{%d}' % kind in t
        mq = re.search(r'Q = ([\d.E+-]+)', t)
        if mq and a['kind'] == 'gme' and len(sim.freqs_im):
            q = f / 2 / float(np.asarray(sim.freqs_im)[kind, mind])
            ok = ok and abs(float(mq[1]) / q - 1) < .01
        out['titles'] = out['titles'] and ok
    return out


def run_case(case):
    a = case[0]
    st, o = call(build, a)
    e = dict(a, id=a['kind'], ok=st == 'ok', len=[s[2] for s in a['steps']])
    if st != 'ok' and ('No guided modes' in o or 'numeig' in o):
        return []                   # nothing to draw
    if st != 'ok':
        return [dict(e, seen=[], err=o)]
    phc, sim, ks, H = o
    evs = [dict(e, seen=look(a, phc, sim))]
    for act in case[1:]:
        if act['op'] == 'end':
            break
        st, o = call(draw, a, act, phc, sim, ks, H)
        plt.close('all')
        e = dict(op=act['op'], ok=st == 'ok', id='%s of %s' % (
            act['op'], a['kind']), seen=look(a, phc, sim))
        e.update(o if st == 'ok' else dict(err=o, args=act))
        evs.append(e)
    return evs


def body(c):
    c.model('PlotMC')
    c.model('PlotMC', 'PlotMC_transposed', expect_violation='RightPoints')
    c.model('PlotMC', 'PlotMC_inplace', expect_violation='Untouched')
    cases = c.generate('PlotGen', num=1600 if THOROUGH else 160, depth=12)
    traces = [t for t in pmap(run_case, cases, chunk=2) if t]
    c.extra['simulations without states'] = len(cases) - len(traces)
    c.sample([{k: v for k, v in e.items() if k in ('op', 'id', 'ok', 'n')}
              for e in traces[0]])
    cnt = {}
    for t in traces:
        for e in t:
            cnt[e['op']] = cnt.get(e['op'], 0) + 1
    c.extra['events'] = cnt
    c.judge('PlotTrace', traces, batch=max(8, len(traces) // 8))


if __name__ == '__main__':
    main('C23', body, assumptions=[
        'drawings are read from the artists of matplotlib: markers, filled '
        'areas, lines, images',
        'pixels whose permittivity changes within 1e-6 are left out'])
