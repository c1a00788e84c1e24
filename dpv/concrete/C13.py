"""Cropping the trajectory."""
import numpy as np
from dpv.concrete import lib, oracles as O
from dpv.concrete.lib import fail, close, equal, call, mix
from dpv.concrete.C18 import mean_matrix
from dpv.concrete.C19 import averages

FUNCTIONS = ['Dynamics.crop_trajectory', 'Quasiparticle.crop_trajectory']
ASK = ['trajectory', 'relative', 'velocity', 'mass', 'time', 'energy', 'mean', 'meanavg', 'average', 'avunit', 'dt', 'natoms']


def cases(rng, tier):
    for rep in range(90 if tier == 'quick' else 1500):
        yield {'cell': lib.CELLS[rep % 6], 'sup': [[1, 1, 1], [2, 1, 1], [1, 1, 2]][rep % 3], 'memmap': rep % 3 == 1,
               'given': rep % 2 == 0, 'scaled': rep % 5 == 2, 'energy': rep % 4 != 3, 'notraj': rep % 6 == 4 and rep % 2 == 0,
               'via': ['dynamics', 'object', 'init'][rep // 2 % 3], 'crops': 1 + rep % 2, 'rep': rep}


def state(dyn, data, d, sup, what, a):
    """compares one answer with the one of the present data"""
    pos, cell = d['pos'], d['cell']
    if a == 'trajectory' and d['traj'] is not None:
        close(np.array(call(lambda: dyn.trajectory)), d['traj'] + 0j, atol=1e-8, what='trajectory ' + what)
    elif a == 'relative' and d['traj'] is not None:
        close(np.array(call(dyn.get_relative_trajectory)), d['disp'] + 0j, atol=1e-8, what='displacements ' + what)
    elif a == 'velocity':
        close(np.array(call(lambda: dyn.velocity)), d['vel'] + 0j, rtol=1e-7, what='velocity ' + what)
    elif a == 'mass':
        close(np.array(call(dyn.get_velocity_mass_average)), O.mass_weighted(data, sup, d['vel']) + 0j, rtol=1e-7, what='mass weighted velocity ' + what)
    elif a == 'time':
        close(np.array(dyn.get_time(), float), d['time'], what='time ' + what)
    elif a == 'energy' and d['energy'] is not None:
        close(np.array(dyn.get_energy(), float), d['energy'], what='energy ' + what)
    elif a in ('mean', 'meanavg') and d['traj'] is not None:
        close(np.array(call(dyn.get_mean_displacement_matrix, use_average_positions=a == 'meanavg')),
              mean_matrix(data, sup, d['disp'], a == 'meanavg'), rtol=1e-6, atol=1e-12, what='mean displacement matrix ' + what)
    elif a in ('average', 'avunit') and d['traj'] is not None:
        ref, ok = averages(data, sup, d['disp'], a == 'avunit')
        r = np.array(call(dyn.average_positions, to_unit_cell=a == 'avunit'))
        close(r[ok], ref[ok] + 0j, atol=1e-8, what='average positions ' + what)
    elif a == 'dt' and len(d['time']) > 1:
        close(float(call(dyn.get_time_step_average)), np.round(np.mean(np.diff(d['time'])), 8), rtol=0, atol=2e-8, what='time step ' + what)
    elif a == 'natoms':
        equal(int(call(dyn.get_number_of_atoms)), len(pos), 'number of atoms ' + what)


def check(case):
    rng = mix(case)
    sup = case['sup']
    st, data = lib.centred_structure(rng, int(rng.integers(1, 3)), ['P', 'C', 'F'][case['rep'] % 3], case['cell'])
    N = int(rng.integers(3, 12))
    notraj = case['notraj']
    dyn, d = lib.dynamics(st, data, sup, rng, steps=N, dt=0.002, memmap=case['memmap'], scaled=case['scaled'] and not notraj,
                          velocity=True if case['given'] or notraj else None, trajectory=not notraj, energy=case['energy'],
                          t0=1.5, amp=0.2)
    d['traj'] = None if notraj else d['traj']
    d['energy'] = d['energy'] if case['energy'] else None
    if case['given'] and rng.random() < .4:     # unequal steps
        d['time'] = 1 + np.cumsum(rng.uniform(.5, 1.5, N)) * .01
        dyn.set_time(d['time'].copy())
    if d['vel'] is None:
        d['vel'] = np.gradient(d['disp'], np.round(np.mean(np.diff(d['time'])), 8), axis=0)
    done = []
    obj = None
    from dynaphopy import Quasiparticle

    def some():
        for a in rng.permutation(ASK)[:rng.integers(0, len(ASK) + 1)]:
            state(dyn, data, d, sup, 'after requests and crops %s' % done, a)
            done.append(str(a))
    some()
    if case['via'] == 'object':
        obj = call(Quasiparticle, dyn)
    for c in range(case['crops']):
        n = [int(rng.integers(1, N + 1)), N, N + int(rng.integers(1, 4)), None, 0, -int(rng.integers(1, 4))][int(rng.choice(6, p=[.6, .05, .1, .1, .1, .05]))]
        if case['via'] == 'object':
            call(obj.crop_trajectory, n)
        elif case['via'] == 'init' and c == 0:
            obj = call(Quasiparticle, dyn, last_steps=n)
        else:
            call(dyn.crop_trajectory, n)
        done.append('crop(%s)' % n)
        if n is not None and n > 0:
            for k in ('traj', 'disp', 'vel', 'time', 'energy'):
                if d[k] is not None:
                    d[k] = d[k][-n:]
        N = len(d['time'])
        if c + 1 < case['crops']:
            some()
    for a in rng.permutation(ASK):
        state(dyn, data, d, sup, 'after requests and crops %s' % done, a)
        done.append(str(a))
