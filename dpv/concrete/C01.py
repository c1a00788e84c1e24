"""Displacements are periodic differences to the reference site."""
import numpy as np, os
from dpv.concrete import lib
from dpv.concrete.lib import fail, close, equal, call, mix, CELLS

FUNCTIONS = ['displacements.atomic_displacements', 'Dynamics.get_relative_trajectory']


def oracle(traj, pos, cell):
    d = np.real(traj) - pos
    n = np.floor(d @ np.linalg.inv(cell) + 0.5)
    return d - n @ cell, d @ np.linalg.inv(cell)


def safe(frac):
    """away from the rounding boundary (floating point is not part of the property)"""
    return np.all(np.abs(np.abs(frac - np.floor(frac)) - 0.5) > 1e-6, axis=-1)


def cases(rng, tier):
    for rep in range(30 if tier == 'quick' else 400):
        yield {'kind': 'kernel', 'cell': CELLS[rep % 6], 'n': int([1, 2, 5, 40, 0][rep % 5]), 'rep': rep,
               'far': rep % 3}
    for rep in range(4 if tier == 'quick' else 60):
        yield {'kind': 'dims', 'dim': [2, 3, 4, 1][rep % 4], 'rep': rep}
    for rep in range(16 if tier == 'quick' else 200):
        yield {'kind': 'relative', 'cell': CELLS[rep % 6], 'memmap': bool(rep % 2), 'scaled': rep % 3 == 2,
               'sup': [[1, 1, 1], [2, 1, 1], [1, 3, 2], [2, 2, 1]][rep % 4], 'rep': rep,
               'noncontig': rep % 5 == 1}
    for rep in range(6 if tier == 'quick' else 60):
        yield {'kind': 'reltraj_function', 'cell': CELLS[rep % 6], 'sup': [[1, 2, 1], [2, 1, 3]][rep % 2], 'rep': rep}


def check(case):
    rng = mix(case)
    if case['kind'] in ('kernel', 'dims'):
        from dynaphopy.displacements import atomic_displacements
        if case['kind'] == 'kernel':
            cell = lib.cell_from(rng, case['cell']); n = case['n']; dim = 3; far = case['far']
            if rng.random() < .3:
                cell = cell[rng.permutation(3)]
            if rng.random() < .2:
                cell = cell * np.array([1, -1, 1])[rng.integers(0, 3)]
        else:
            dim = case['dim']; n = 6; far = 1
            while True:
                cell = rng.uniform(-1, 1, (dim, dim)) * 3 + np.eye(dim) * 3
                if abs(np.linalg.det(cell)) > 0.5:
                    break
        pos = rng.uniform(-1, 1, dim) * 5
        spread = [0.4, 3, 30][far]
        traj = pos + rng.uniform(-spread, spread, (n, dim)) @ cell
        traj = np.array(traj, dtype=complex) + 1j * rng.normal(size=traj.shape) * (rng.random() < .5)
        t0, p0, c0 = traj.copy(), pos.copy(), cell.copy()
        arg = traj
        if rng.random() < .3:
            arg = np.asfortranarray(traj)
        r = call(atomic_displacements, arg, pos, cell)
        ref, frac = oracle(traj, pos, cell)
        ok = safe(frac)
        if np.asarray(r).shape != ref.shape:
            fail('shape %s for %d steps' % (np.asarray(r).shape, n))
        close(np.asarray(r)[ok], ref[ok] + 0j, rtol=1e-9, atol=1e-9, what='displacement')
        equal(traj, t0, 'trajectory argument after the call'); equal(pos, p0, 'positions after the call')
        equal(cell, c0, 'cell after the call')
        # invariance under lattice translations
        if n:
            shift = rng.integers(-4, 5, (n, dim)) @ cell
            r2 = call(atomic_displacements, traj + shift, pos, cell)
            close(np.asarray(r2)[ok], np.asarray(r)[ok], rtol=1e-8, atol=1e-8, what='displacement after adding lattice vectors')
        return
    sup = case['sup']
    st, data = lib.structure(rng, int(rng.integers(1, 5)), case['cell'])
    steps = int(rng.choice([1, 2, 7, 12]))
    dyn, d = lib.dynamics(st, data, sup, rng, steps=steps, wrap=True, amp=float(rng.choice([0.3, 1.5, 6])),
                          memmap=case.get('memmap', False), scaled=case.get('scaled', False))
    if case.get('noncontig'):
        from dynaphopy.dynamics import Dynamics
        big = np.zeros((d['traj'].shape[0], d['traj'].shape[1] * 2, 3), dtype=complex)
        big[:, ::2] = d['traj']
        dyn = Dynamics(structure=st, trajectory=big[:, ::2], time=d['time'], supercell=d['cell'],
                       memmap=case['memmap'])
    if case['kind'] == 'relative':
        r = np.array(call(dyn.get_relative_trajectory))
    else:
        from dynaphopy.analysis.coordinates import relativize_trajectory
        r = np.array(call(relativize_trajectory, dyn))
    ref = np.zeros(d['traj'].shape); ok = np.zeros(d['traj'].shape[:2], bool)
    for i in range(len(d['pos'])):
        ref[:, i], frac = oracle(d['traj'][:, i], d['pos'][i], d['cell'])
        ok[:, i] = safe(frac)
    if r.shape != ref.shape:
        fail('relative trajectory shape %s' % (r.shape,))
    close(r[ok], ref[ok] + 0j, rtol=1e-8, atol=1e-8, what='relative trajectory')
    close(np.array(call(lambda: dyn.trajectory)), d['traj'] + 0j, rtol=1e-9, atol=1e-9, what='trajectory afterwards')
    close(call(st.get_positions), data['positions'], atol=1e-9, what='structure positions afterwards')
    close(np.array(call(dyn.get_relative_trajectory)), np.array(call(dyn.get_relative_trajectory)), what='second request')
