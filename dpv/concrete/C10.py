"""Recognition of the MD supercell."""
import numpy as np
from dpv.concrete import lib
from dpv.concrete.lib import fail, close, equal, call, mix

FUNCTIONS = ['Dynamics.get_supercell_matrix', 'Dynamics.get_number_of_atoms', 'Quasiparticle.check_commensurate']


def cases(rng, tier):
    for rep in range(90 if tier == 'quick' else 1200):
        yield {'kind': 'match', 'cell': lib.CELLS[rep % 6], 'rep': rep, 'mode': ['exact', 'near', 'bad', 'plus', 'minus', 'rotated'][rep // 2 % 6]}
    for rep in range(40 if tier == 'quick' else 400):
        yield {'kind': 'commensurate', 'cell': lib.CELLS[rep % 6], 'cent': ['P', 'F', 'I', 'C', 'Z2'][rep % 5], 'rep': rep}


def check(case):
    rng = mix(case)
    from dynaphopy.dynamics import Dynamics
    cell = lib.cell_from(rng, case['cell'])
    if case['kind'] == 'match':
        st, data = lib.structure(rng, int(rng.integers(1, 4)), cell)
        n = rng.integers(1, 6, 3)
        r = n.astype(float)
        mode = case['mode']
        k = rng.integers(3)
        if mode in ('bad', 'plus', 'minus'):
            d = {'plus': rng.uniform(.1, .45), 'minus': -rng.uniform(.1, .45), 'bad': rng.uniform(-.5, .5)}[mode]
            r[k] += d
            if mode != 'bad' and rng.random() < .5:     # opposite deviations must not cancel
                r[(k + 1) % 3] -= d
        elif mode == 'near':
            r *= 1 + rng.uniform(-1, 1, 3) * 0.003
        mdcell = np.diag(r) @ cell
        if mode == 'rotated':
            from scipy.spatial.transform import Rotation
            mdcell = mdcell @ Rotation.random(random_state=int(rng.integers(1 << 30))).as_matrix()
        nn = np.around(r)
        dev = np.abs(nn - r).sum() / np.linalg.norm(r)
        if abs(dev - 0.01) < 1e-3 or np.any(nn < 1) or np.any(np.abs(np.abs(r - np.floor(r)) - .5) < 1e-4):
            return
        traj = np.zeros((3, int(np.prod(nn)) * len(data['scaled']), 3), complex)
        dyn = Dynamics(structure=st, trajectory=traj, time=np.arange(3) * .1, supercell=mdcell)
        try:
            s = call(dyn.get_supercell_matrix)
        except (SystemExit, Exception) as e:
            if dev > 0.01:
                return
            fail('MD cell with size relation %s rejected (%s: %s)' % (r, type(e).__name__, e))
        if dev > 0.01:
            fail('MD cell with size relation %s (deviation %.3f) accepted as %s' % (r, dev, list(s)))
        equal([int(x) for x in s], [int(x) for x in nn], 'supercell size')
        equal(int(call(dyn.get_number_of_atoms)), traj.shape[1], 'number of atoms')
        equal([int(x) for x in call(dyn.get_supercell_matrix)], [int(x) for x in nn], 'supercell size, again')
        return
    from dynaphopy import Quasiparticle
    st, data = lib.centred_structure(rng, int(rng.integers(1, 3)), case['cent'], cell)
    sup = [int(x) for x in rng.integers(1, 5, 3)]
    dyn, d = lib.dynamics(st, data, sup, rng, steps=3, velocity=True, dt=.1)
    qp = call(Quasiparticle, dyn)
    P = data['primitive']
    for k in range(24):
        if k % 3 == 0:
            q = rng.integers(-3, 4, 3) / np.array(sup) @ P         # a reciprocal vector of the MD cell
        elif k % 3 == 1:
            q = rng.integers(-3, 4, 3) / np.array([2, 3, 4])[rng.permutation(3)]
        else:
            q = (rng.integers(-3, 4, 3) + rng.choice([0, .5, .25], 3)) / np.array(sup) @ P
        m = q @ np.linalg.inv(P) * np.array(sup)
        dist = np.abs(m - np.round(m)).max()
        if 1e-6 < dist < 1e-3:
            continue
        # phase test: equivalent to exp(i q.R)=1 for every MD lattice vector
        prim = (data['cell'].T @ P).T
        qc = 2 * np.pi * np.linalg.inv(prim) @ q
        phases = np.exp(1j * (np.diag(sup) @ data['cell']) @ qc)
        ref = bool(np.abs(phases - 1).max() < 5e-3)
        r = call(qp.check_commensurate, np.array(q))
        if bool(r) != ref:
            fail('wave vector %s in a %s supercell (%s centring) reported %scommensurate' % (np.round(q, 4), sup, case['cent'], '' if r else 'not '))
