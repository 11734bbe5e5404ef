"""C16: excitons: equivalent descriptions, free motion, potential, states."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import numpy as np
import legume
import legume.constants as cs
from vlib import lg, desc, fields

N = 8
A0 = 300e-9
EU = .02


def mass(eu):
    """mass for which the kinetic energy of 2 pi / length unit is eu"""
    return cs.hbar**2 * (2 * np.pi / A0)**2 / 2 / eu / cs.e


def pot(w):
    return [.013, -.011, .04, -.05, .003, -.02, .25, -.2][w % 8]


def sim_of(v, tr, w, gm, z=.4):
    L, E = desc.scales(v)
    p = desc.phc(v)
    return legume.ExcitonSchroedEq(
        p, z=p.layers[0].z_min + z * p.layers[0].d,
        V_shapes=pot(w) / L**2 / E, a=A0, M=mass(EU / E), E0=1.5 + w % 3 / 4,
        loss=[0., 1e-4, .02][w % 3], osc_str=[1e15, 1e15, 0], gmax=gm,
        truncate_g=tr)


def energies(sim):
    """relative to the band edge"""
    return np.real(np.asarray(sim.eners)) - sim.E0


def spectrum(v, tr, w, gm, n):
    sim = sim_of(v, tr, w, gm / desc.scales(v)[0], z=.1 + w % 9 / 10)
    sim.run(kpoints=desc.kpoint(v), numeig_ex=n, verbose_ex=False)
    e = energies(sim)[0] / EU
    return dict(f=[fxl(np.sign(e) * np.sqrt(np.abs(e)), 10**7)], g=[])


def run_equiv(case):
    a = case[0]
    gm = desc.gmax(a['v'])
    evs = []
    n0 = None
    for act in case:
        if act['op'] == 'end':
            break
        n = n0 or N
        if act['op'] == 'double':
            n = 2 * n
        st, o = call(spectrum, act['v'], a['tr'], a['w'], gm, n)
        if st == 'ok' and n0 is None:
            n0 = len(o['f'][0])
        e = dict(act, ok=st == 'ok', id=act['op'])
        e.update(o if st == 'ok' else dict(err=o, f=[], g=[]))
        evs.append(e)
    return evs


def run_states(case):
    a = case[0]
    v = a['v']
    V = pot(a['w'])
    evs = [dict(a, id='base', V=int(round(V * 1e6)))]
    gm = desc.gmax(v)
    st, sim = call(sim_of, v, a['tr'], a['w'], gm)
    if st != 'ok':
        return evs + [dict(op='run', id='new', ok=False, err=sim)]
    lat = sim.phc.lattice
    lay = sim.phc.layers[0]
    g = np.asarray(sim.gvec)
    m = fields.indexes(sim, lat)
    KD = fields.kd(v)
    d = (g[:, :, None] - g[:, None, :]).reshape(2, -1)

    def pot_ft(q):
        """components of the potential of the shapes drawn"""
        f = sum((V * np.asarray(s.compute_ft(q), complex) for s in lay.shapes),
                np.zeros(q.shape[1], complex)) / lat.ec_area
        mean = V * sum(float(np.squeeze(s.area)) for s in lay.shapes)
        return f + (np.hypot(*q) < 1e-9) * (abs(V) if mean < 0 else 0)

    n = 0
    for act in case[1:]:
        if act['op'] == 'end':
            break
        if act['op'] == 'run':
            ks = 2 * np.pi * np.array(act['ks'], float).T / 20
            n = min(act['n'], len(m))
            st, o = call(sim.run, kpoints=ks, numeig_ex=n, verbose_ex=False)
            e = dict(op='run', id='run', ok=st == 'ok', ks=act['ks'], n=n, m=m)
            if st == 'ok':
                e['en'] = [fxl(x / EU * KD**2, 10) for x in energies(sim)]
                e['loss'] = fxl(np.imag(sim.eners), 10**8)
                e['loss0'] = fx(sim.loss)
                # in units of Kap2
                e['vkd'] = fx(V / EU * KD**2, 1)
            else:
                e['err'] = o
            evs.append(e)
            continue
        kind, i = act['kind'], min(act['i'], n - 1)
        k = np.asarray(sim.kpoints)[:, kind]

        def states():
            out = []
            E = energies(sim)[kind]
            C = np.array([sim.ft_wavef_xy(kind, j) for j in range(n)])
            out.append(fields.pair('orthonormal', C.conj() @ C.T, np.eye(n)))
            # kinetic and potential energy make up the energy of the state
            kin = EU * ((g + k[:, None])**2).sum(0) / (2 * np.pi)**2
            W = pot_ft(d).reshape(len(m), len(m))
            out.append(fields.pair('Schroedinger', (kin * C[i] + W @ C[i]) / EU,
                                   E[i] * C[i] / EU, s=10**6, tol=100))
            psi, x, y = sim.get_wavef_xy(kind, i, Nx=act['nx'], Ny=act['ny'])
            out.append(fields.pair('section', psi, fields.series(C[i], g, x, y)))
            gx, gy = lat.xy_grid(Nx=act['nx'], Ny=act['ny'])
            out.append(fields.pair('grid', np.r_[x, y], np.r_[gx, gy]))
            return dict(pairs=out)

        def potential():
            P, x, y = sim.get_pot_xy(Nx=act['nx'], Ny=act['ny'])
            r = np.unique(np.round(d, 8), axis=1)
            return dict(pairs=[fields.pair(
                'map', P / abs(V), fields.series(pot_ft(r), r, x, y) / abs(V),
                s=10**6)])

        st, o = call(states if act['op'] in ('ft', 'norm') else potential)
        e = dict(op='states' if act['op'] in ('ft', 'norm') else 'potential',
                 kind=kind, i=i, ok=st == 'ok', id=act['op'])
        e.update(o if st == 'ok' else dict(err=o))
        evs.append(e)
    return evs


def body(c):
    c.model('ExcitonMC')
    c.model('ExcitonMC', 'ExcitonMC_perpart', expect_violation='Same')
    cases = c.generate('EquivGen', 'EquivGen_exc',
                       num=3000 if THOROUGH else 150, depth=12)
    traces = pmap(run_equiv, cases, chunk=4)
    c.sample(traces[0][:2])
    c.judge('EquivTrace', traces, batch=max(10, len(traces) // 8),
            consts=dict(tf=30, tg=100))
    cases = c.generate('FieldGen', 'FieldGen_exc',
                       num=3000 if THOROUGH else 150, depth=14)
    traces = pmap(run_states, cases, chunk=4)
    c.sample([{k: v for k, v in e.items() if k in ('op', 'ks', 'kind', 'i')}
              for e in traces[0]])
    c.judge('ExcitonTrace', traces, batch=max(10, len(traces) // 8))


if __name__ == '__main__':
    main('C16', body, assumptions=[
        'the documented reference of a negative potential to its bottom is '
        'part of the specification'])
