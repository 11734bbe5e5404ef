"""C12: fields of slab modes."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import numpy as np
import legume
from vlib import lg, desc, fields

INDS = [[0, 1], [0, 1, 2, 3], [0, 2], [0, 1, 2], [1], [0], [0, 1, 3]]
S = 2 * 10**4


def run_case(case):
    a = case[0]
    v = a['v']
    evs = [dict(a, id='base')]
    gm = desc.gmax(v)

    def new():
        p = desc.phc(v)
        return p, legume.GuidedModeExp(p, gmax=gm, truncate_g=a['tr'])
    st, o = call(new)
    if st != 'ok':
        return evs + [dict(op='run', id='new', ok=False, err=o)]
    phc, sim = o
    g = np.asarray(sim.gvec)
    m = fields.indexes(sim, phc.lattice)
    KD = fields.kd(v)
    C = KD / 2 / np.pi
    lays = [phc.claddings[0]] + phc.layers + [phc.claddings[1]]
    plain = [not l for l in [v['s']['clad'][0]] +
             [l['shapes'] for l in v['s']['layers']] + [v['s']['clad'][1]]]
    tops = [float(l.z_max) for l in lays[:-1]]
    n = 0
    for act in case[1:]:
        if act['op'] == 'end':
            break
        if act['op'] == 'run':
            ks = 2 * np.pi * np.array(act['ks'], float).T / 20
            st = ''
            n = act['n']
            while n > 0:
                st, o = call(sim.run, kpoints=ks, numeig=n, verbose=False,
                             gmode_inds=INDS[act['inds'] - 1],
                             gmode_step=1e-2, compute_im=True)
                if st == 'ok' or 'Requested' not in o:
                    break
                n -= 1
            if st != 'ok' and 'No guided' in o:
                break       # all of the chosen modes are cut off here
            evs.append(dict(op='run', id='run', ok=st == 'ok', ks=act['ks'],
                            uniform=False, err='' if st == 'ok' else o))
            if st != 'ok':
                break
            continue
        kind, i = act['kind'], min(act['i'], n - 1)
        k = np.asarray(sim.kpoints)[:, kind]
        lay = act['lay']
        if lay == 0:
            z, h = -.6 * act['zf'] / 100, 1e-3
        elif lay == len(lays) - 1:
            z, h = tops[-1] + .6 * act['zf'] / 100, 1e-3
        else:
            d = lays[lay].d
            z, h = tops[lay - 1] + d * act['zf'] / 100, d * 1e-3
        fd = act['fd']

        def F(x, zz=None):
            return np.array(sim.ft_field_xy(x, kind, i, z if zz is None
                                            else zz))

        def ft():
            f = float(sim.freqs[kind][i])
            H, D, E = F('H'), F('D'), F('E')
            dH = fields.derivative(lambda t: F('H', z + t), h)
            dD = fields.derivative(lambda t: F('D', z + t), h)
            ee = np.array([fields.eps_matrix(sim, lays[lay]) @ c for c in E])
            if f < 1e-4:
                z0 = [[0] * 6] * len(m)
                return dict(H=z0, D=z0, E=[], dH=z0, dD=z0, wD=z0, wH=[],
                            D7=[], epsE=[], faraday=False)
            return dict(H=fields.pack(H, S), D=fields.pack(D, S), E=[], wH=[],
                        dH=fields.pack(dH, S * C), dD=fields.pack(dD, S * C),
                        wD=fields.pack(D, S * KD * f), faraday=False,
                        D7=fields.pack(D, 10**7),
                        epsE=fields.pack(ee, 10**7))

        def views():
            out = []
            A = F(fd)
            x = np.linspace(-.4, .7, act['nx'])
            y = np.linspace(-.3, .5, act['ny'])
            zs = np.array([z, z + h, z - h])
            comps = sorted(set(act['comp']))
            fi = sim.get_field_xy(fd, kind, i, z, xgrid=x, ygrid=y,
                                  component=act['comp'])[0]
            out.append(dict(what='components', a=sorted(map(ord, fi)),
                            b=sorted(map(ord, comps)), tol=0))
            xz, gx, gz = sim.get_field_xz(fd, kind, i, y[1], xgrid=x, zgrid=zs,
                                          component=act['comp'])
            yz, gy, gz = sim.get_field_yz(fd, kind, i, x[1], ygrid=y, zgrid=zs,
                                          component=act['comp'])
            for c in comps:
                s = fields.series(A['xyz'.index(c)], g, x, y)
                out.append(fields.pair('xy-' + c, fi[c], s))
                out.append(fields.pair('xz-' + c, xz[c][0], s[1]))
                out.append(fields.pair('yz-' + c, yz[c][0], s[:, 1]))
                s2 = fields.series(F(fd, z + h)['xyz'.index(c)], g, x, y)
                out.append(fields.pair('xz-up-' + c, xz[c][1], s2[1]))
                out.append(fields.pair('yz-up-' + c, yz[c][1], s2[:, 1]))
            # default grids
            f2, x2, y2 = sim.get_field_xy(fd, kind, i, z, component=comps[0],
                                          Nx=act['nx'], Ny=act['ny'])
            gx, gy = phc.lattice.xy_grid(Nx=act['nx'], Ny=act['ny'])
            out.append(fields.pair('grid', np.r_[x2, y2], np.r_[gx, gy]))
            s = fields.series(A['xyz'.index(comps[0])], g, x2, y2)
            out.append(fields.pair('default-xy', f2[comps[0]], s))
            f3, x3, z3 = sim.get_field_xz(fd, kind, i, .1, component=comps[0],
                                          Nx=act['nx'], Nz=4)
            s = fields.series(F(fd, z3[1])['xyz'.index(comps[0])], g, x3, [.1])
            out.append(fields.pair('default-xz', f3[comps[0]][1], s))
            # what the plot shows, with and without the Bloch phase
            import matplotlib.pyplot as plt
            for per in (True, False):
                for val in ('re', 'im', 'abs'):
                    fig = legume.viz.field(sim, fd, kind, i, z=z, eps=False,
                                           periodic=per, component=comps[0],
                                           val=val, N1=act['nx'], N2=act['ny'],
                                           cbar=False)
                    arr = np.asarray(
                        [q for q in fig.axes[0].get_images()][0].get_array()
                        if fig.axes[0].get_images() else
                        fig.axes[0].collections[0].get_array())
                    plt.close(fig)
                    s = fields.series(A['xyz'.index(comps[0])], g, gx, gy)
                    if not per:
                        X, Y = np.meshgrid(gx, gy)
                        s = s * np.exp(1j * (k[0] * X + k[1] * Y))
                    s = dict(re=s.real, im=s.imag, abs=abs(s))[val]
                    out.append(fields.pair('plot-%s-%s' % (
                        val, 'periodic' if per else 'Bloch'), arr, s))
            return dict(pairs=out)

        def quad(nq):
            hh = ed = 0.
            x, w = np.polynomial.legendre.leggauss(nq)
            u, w = (x + 1) / 2, w / 2
            for l in range(len(lays)):
                if 0 < l < len(lays) - 1:
                    zq = tops[l - 1] + lays[l].d * u
                    wq = w * lays[l].d
                else:
                    t = u / (1 - u) * .4
                    zq = -t if l == 0 else tops[-1] + t
                    wq = w * .4 / (1 - u)**2
                for zz, ww in zip(zq, wq):
                    H, D, E = F('H', zz), F('D', zz), F('E', zz)
                    hh += ww * np.sum(np.abs(H)**2)
                    ed += ww * np.sum(np.conj(E) * D).real
            return np.array([hh, ed]) * phc.lattice.ec_area

        def norm():
            if float(sim.freqs[kind][i]) < 1e-4:
                return dict(pairs=[])
            q, r = quad(24), quad(30)
            if np.abs(q - r).max() > 1e-4:
                # the mode reaches too far into a cladding to be integrated
                return dict(pairs=[])
            return dict(pairs=[
                dict(what='magnetic-energy', a=fxl(r[:1]), b=[10**8],
                     tol=30000),
                dict(what='electric-energy', a=fxl(r[1:]), b=[10**8],
                     tol=30000)])

        def interface():
            l = min(lay, len(lays) - 2)
            zi, q = tops[l], 1e-9
            out = []
            if float(sim.freqs[kind][i]) > 1e-4:
                H0, H1 = F('H', zi - q), F('H', zi + q)
                D0, D1 = F('D', zi - q), F('D', zi + q)
                out += [fields.pair('H', H0, H1), fields.pair('Dz', D0[2], D1[2])]
                if plain[l] and plain[l + 1]:
                    out.append(fields.pair('E-tangential', F('E', zi - q)[:2],
                                           F('E', zi + q)[:2]))
            return dict(pairs=out)

        st, o = call(dict(ft=ft, views=views, norm=norm,
                          interface=interface)[act['op']])
        e = dict(op=act['op'], sgn=-1, kind=kind, i=i, ok=st == 'ok', m=m,
                 id=act['op'],
                 kk=[int(x) for x in np.rint(k * 20 / 2 / np.pi)])
        e.update(o if st == 'ok' else dict(err=o))
        evs.append(e)
    return evs


def body(c):
    c.model('FieldLawsMC')
    c.model('FieldLawsMC', 'FieldLawsMC_sign', expect_violation='NoDiv')
    cases = c.generate('FieldGen', 'FieldGen_gme',
                       num=1500 if THOROUGH else 64, depth=14)
    traces = pmap(run_case, cases)
    c.sample([{k: v for k, v in e.items() if k in ('op', 'ks', 'kind', 'i')}
              for e in traces[0]])
    cnt = {}
    for t in traces:
        for e in t:
            cnt[e['op']] = cnt.get(e['op'], 0) + 1
    c.extra['events'] = cnt
    c.judge('FieldTrace', traces, batch=max(8, len(traces) // 8))


if __name__ == '__main__':
    main('C12', body, assumptions=[
        'the tangential electric field is continuous only between layers '
        'without shapes, since D, not E, is expanded in the guided modes',
        'modes that reach too far into a cladding for the quadrature are left '
        'out of the energy clauses'])
