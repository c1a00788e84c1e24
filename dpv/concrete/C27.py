"""The harmonic trajectory generated for tests."""
import numpy as np
from dpv.concrete import lib, oracles as O
from dpv.concrete.lib import fail, close, equal, call, mix

FUNCTIONS = ['iofile.generate_test_trajectory']
KB = 1.380649e-23 / (1.66053906660e-27 * 1e4)


def cases(rng, tier):
    for rep in range(40 if tier == 'quick' else 500):
        yield {'cent': 'PFIC'[rep % 4], 'nbasis': 1 + rep // 2 % 2, 'cell': lib.CELLS[rep % 6], 'phase': rep % 2 == 1, 'rep': rep,
               'fcsup': [[1, 1, 1], [2, 1, 1], [1, 2, 1]][rep // 3 % 3], 'sup': [[1, 1, 1], [2, 1, 1], [1, 2, 1], [1, 2, 2]][rep // 4 % 4],
               'floor': rep % 5 == 2, 'memmap': rep % 7 == 3, 'default': rep % 6 == 0}


def check(case):
    from dynaphopy.interface import iofile
    from dynaphopy.interface import phonopy_link as L
    rng = mix(case)
    sup = case['sup']
    st, data = lib.forced_structure(rng, case['cent'], case['nbasis'], case['cell'], tuple(case['fcsup']), kinds=list(rng.permutation(6)[:case['nbasis']]))
    dt = float(rng.choice([.002, .005, .01])); steps = int(rng.integers(3, 9)); T = float(rng.uniform(1, 900))
    kw = {}
    floor, phase = .1, 0.
    if case['floor']:
        kw['minimum_frequency'] = floor = float(rng.uniform(.5, 4))
    if case['phase']:
        kw['phase_0'] = phase = float(rng.uniform(-3, 3))
    if case['default']:
        T = 400.
    else:
        kw['temperature'] = T
    dyn = call(iofile.generate_test_trajectory, st, supercell=sup if rng.random() < .5 else tuple(sup), total_time=(steps - .5) * dt, time_step=dt,
               silent=bool(rng.random() < .5), memmap=case['memmap'], **kw)
    t = np.array(dyn.get_time(), float)
    close(t, np.arange(steps) * dt, rtol=1e-9, what='times')
    pos = lib.super_positions(data, sup)
    typ = O.super_types(data, sup)
    m = data['masses'][lib.super_index(data, sup)]
    npc = len(pos) / len(set(data['types']))
    pts = np.array(call(L.get_commensurate_points, st, np.diag(sup)))
    equal(len(pts), int(round(npc)), 'number of commensurate wave vectors')
    disp = np.zeros((steps,) + pos.shape)
    for q in pts:
        ev, fr = call(L.obtain_eigenvectors_and_frequencies, st, q)
        wave = np.exp(1j * (pos @ O.q_cart(data, q) + phase))
        for e, f in zip(np.array(ev), np.array(fr)):
            if abs(abs(f) - floor) < 1e-6:
                raise lib.Skip('frequency at the limit')
            if abs(f) <= floor:
                continue
            w = 2 * np.pi * f
            amp = np.sqrt(3 * KB * T / npc) / w
            disp += amp * (e[typ] / np.sqrt(m)[:, None] * wave[:, None] * np.exp(-1j * w * t)[:, None, None]).real
    close(np.array(dyn.trajectory), pos + disp + 0j, rtol=2e-6 * max(1e-3, np.abs(disp).max() / np.abs(pos + disp).max()), atol=1e-7,
          what='trajectory')
    close(np.array(dyn.get_supercell(), float), np.diag(sup) @ data['cell'], what='MD cell')
    equal([int(x) for x in call(dyn.get_supercell_matrix)], list(sup), 'supercell')
    close(np.array(st.get_positions(), float), data['positions'], what='positions of the structure afterwards')
    close(np.array(st.get_positions(sup), float), pos, what='supercell positions afterwards')
    equal(dyn.structure is st, True, 'structure of the trajectory')
    equal([list(map(int, x)) for x in np.array(st.get_supercell_phonon())], np.diag(case['fcsup']).tolist(), 'force constants supercell afterwards')
