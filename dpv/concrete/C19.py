"""Average positions."""
import numpy as np
from dpv.concrete import lib
from dpv.concrete.lib import fail, close, equal, call, mix

FUNCTIONS = ['Dynamics.average_positions']
SUPS = [[1, 1, 1], [2, 1, 1], [1, 2, 3], [2, 2, 1]]


def averages(data, sup, disp, unit):
    """average positions folded into the cell, and whether each atom is away from the cell faces"""
    mean = disp.mean(axis=0)
    idx = lib.super_index(data, sup)
    if unit:
        t = data['types'][idx]
        pos = data['positions']; cell = data['cell']
        mean = np.array([mean[t == k].mean(axis=0) for k in data['types']])
    else:
        pos = lib.super_positions(data, sup); cell = np.diag(sup) @ data['cell']
    s = (pos + mean) @ np.linalg.inv(cell)
    ok = np.all(np.abs(s - np.round(s)) > 1e-6, axis=1)
    return (s - np.floor(s)) @ cell, ok


def cases(rng, tier):
    for rep in range(100 if tier == 'quick' else 1200):
        yield {'cell': lib.CELLS[rep % 6], 'sup': SUPS[rep % 4], 'cent': ['P', 'F', 'C', 'I', 'Z2'][rep % 5], 'memmap': rep % 5 == 3,
               'nbasis': 1 + rep % 3, 'wrap': rep % 2 == 1, 'outside': rep % 3 == 2, 'samples': rep % 10 == 9, 'rep': rep}


def check(case):
    rng = mix(case)
    sup = case['sup']
    st, data = lib.centred_structure(rng, case['nbasis'], case['cent'], case['cell'])
    if case['outside']:     # reference positions outside the cell
        sc = data['scaled'] + rng.integers(-1, 2, data['scaled'].shape)
        st, new = lib.make_structure(data['cell'], sc, data['elements'], None, data['primitive'], el_masses=data['masses'])
        new['types'] = data['types']; data = new
    from dynaphopy.dynamics import Dynamics
    _, d = lib.dynamics(st, data, sup, rng, steps=int(rng.integers(2, 9)), wrap=case['wrap'], amp=.2)
    off = rng.uniform(-.2, .2, (len(d['pos']), 3))
    disp = d['disp'] + off
    if case['samples']:
        disp = np.broadcast_to(disp[0], disp.shape)     # any sample of a constant displacement gives the same average
        traj = d['pos'] + disp
    else:
        traj = d['traj'] + off
    dyn = Dynamics(structure=st, trajectory=traj + 0j, time=d['time'], supercell=d['cell'], memmap=case['memmap'])
    if np.abs(disp @ np.linalg.inv(d['cell'])).max() > .49:
        return
    for unit in [bool(x) for x in rng.integers(0, 2, 3)] + [True, False]:
        ref, ok = averages(data, sup, disp, unit)
        kw = dict(to_unit_cell=unit)
        if case['samples']:
            kw['number_of_samples'] = int(rng.integers(1, 12))
        elif not unit and rng.random() < .5:
            kw = {}
        r = np.array(call(dyn.average_positions, **kw))
        if r.shape != ref.shape:
            fail('%s average positions for %s atoms' % (r.shape, len(ref)))
        close(r[ok], ref[ok] + 0j, atol=1e-8, what='average positions (unit cell: %s)' % unit)
        cell = data['cell'] if unit else d['cell']
        s = r.real @ np.linalg.inv(cell)
        if s.min() < -1e-6 or s.max() > 1 + 1e-6:
            fail('average position outside the cell (cell coordinates from %.3f to %.3f)' % (s.min(), s.max()))
    close(np.array(call(dyn.get_relative_trajectory)), np.array(disp) + 0j, atol=1e-8, what='displacements afterwards')
    close(np.array(call(st.get_positions)), data['positions'], atol=1e-9, what='structure positions afterwards')
