"""Time step, velocities and mass weighting."""
import numpy as np
from dpv.concrete import lib, oracles as O
from dpv.concrete.lib import fail, close, equal, call, mix

FUNCTIONS = ['Dynamics.get_time_step_average', 'Dynamics.velocity', 'Dynamics.get_velocity_mass_average']
SUPS = [[1, 1, 1], [2, 1, 1], [1, 2, 3], [2, 2, 1]]


def cases(rng, tier):
    for rep in range(80 if tier == 'quick' else 1000):
        yield {'cell': lib.CELLS[rep % 6], 'sup': SUPS[rep % 4], 'given': rep % 3 == 0, 'memmap': rep // 2 % 3 == 0,
               'wrap': rep % 2 == 0, 'scaled': rep % 7 == 4, 'dt': [0.001, 0.00203, 0.1, 1.0, 0.0005][rep % 5], 'rep': rep,
               'uneven': rep % 6 == 5, 'steps': int([2, 3, 9, 20][rep // 3 % 4]), 'cent': ['P', 'F', 'C'][rep % 3]}


def check(case):
    rng = mix(case)
    sup = case['sup']
    st, data = lib.centred_structure(rng, int(rng.integers(1, 3)), case['cent'], case['cell'],
                                     masses='random' if rng.random() < .5 else 'elements')
    dyn, d = lib.dynamics(st, data, sup, rng, steps=case['steps'], wrap=case['wrap'], dt=case['dt'], memmap=case['memmap'],
                          velocity=True if case['given'] else None, scaled=case['scaled'], t0=float(rng.choice([0, 5.3])),
                          amp=0.12)
    time = d['time']
    if case['uneven']:
        time = np.cumsum(rng.uniform(.5, 1.5, case['steps'])) * case['dt']
        dyn.set_time(time)
    if rng.random() < .2:
        dyn.set_time(list(time))
    dt = np.round(np.mean(np.diff(time)), 8)
    ask = list(rng.permutation(['dt', 'velocity', 'mass'])) + ['mass', 'velocity', 'dt']
    frac = d['disp'] @ np.linalg.inv(d['cell'])
    disp = d['disp'] - np.floor(frac + .5) @ d['cell']
    safe = np.abs(np.abs(frac - np.floor(frac)) - .5).min() > 1e-6
    if not safe:
        return
    vel = d['vel'] if case['given'] else None
    if vel is None:
        vel = np.empty_like(disp)
        vel[0] = (disp[1] - disp[0]) / dt
        vel[-1] = (disp[-1] - disp[-2]) / dt
        vel[1:-1] = (disp[2:] - disp[:-2]) / (2 * dt)
    for a in ask:
        if a == 'dt':
            close(float(call(dyn.get_time_step_average)), dt, rtol=0, atol=2e-8, what='time step')
        elif a == 'velocity':
            close(np.array(call(lambda: dyn.velocity)), vel + 0j, rtol=1e-7, what='velocity (memmap=%s)' % case['memmap'])
        else:
            close(np.array(call(dyn.get_velocity_mass_average)), O.mass_weighted(data, sup, vel) + 0j, rtol=1e-7,
                  what='mass weighted velocity (memmap=%s)' % case['memmap'])
