"""Mean and anisotropic displacement parameters."""
import numpy as np
from dpv.concrete import lib, oracles as O
from dpv.concrete.lib import fail, close, equal, call, mix

FUNCTIONS = ['Dynamics.get_mean_displacement_matrix', 'Quasiparticle.get_anisotropic_displacement_parameters']
SUPS = [[1, 1, 1], [2, 1, 1], [1, 2, 3], [2, 2, 1]]


def mean_matrix(data, sup, disp, average):
    t = data['types'][lib.super_index(data, sup)]
    d = disp - disp.mean(axis=0) if average else disp
    out = []
    for k in range(len(set(data['types']))):
        x = d[:, t == k].reshape(-1, 3)
        out.append(x.T @ x / len(x))
    return np.array(out)


def cases(rng, tier):
    for rep in range(90 if tier == 'quick' else 1200):
        yield {'cell': lib.CELLS[rep % 6], 'sup': SUPS[rep % 4], 'cent': ['P', 'F', 'C', 'I', 'Z2'][rep % 5], 'memmap': rep % 5 == 3,
               'nbasis': 1 + rep % 3, 'wrap': rep % 2 == 1, 'kind': ['mean', 'adp'][rep // 2 % 2], 'rep': rep}


def check(case):
    rng = mix(case)
    sup = case['sup']
    st, data = lib.centred_structure(rng, case['nbasis'], case['cent'], case['cell'])
    dyn, d = lib.dynamics(st, data, sup, rng, steps=int(rng.integers(2, 9)), wrap=case['wrap'], memmap=case['memmap'], amp=.25,
                          velocity=True)
    # a mean displacement different for each atom
    off = rng.uniform(-.15, .15, (len(d['pos']), 3))
    d['disp'] = d['disp'] + off
    from dynaphopy.dynamics import Dynamics
    traj = d['traj'] + off
    dyn = Dynamics(structure=st, trajectory=traj + 0j, time=d['time'], supercell=d['cell'], memmap=case['memmap'], velocity=d['vel'] + 0j)
    frac = d['disp'] @ np.linalg.inv(d['cell'])
    if np.abs(frac).max() > .49:
        return
    if case['kind'] == 'mean':
        seq = [bool(x) for x in rng.integers(0, 2, 5)]
        for k, av in enumerate(seq):
            r = call(dyn.get_mean_displacement_matrix, use_average_positions=av) if av or rng.random() < .5 else call(dyn.get_mean_displacement_matrix)
            close(np.array(r), mean_matrix(data, sup, d['disp'], av), rtol=1e-7, atol=1e-13,
                  what='mean displacement matrix (average positions: %s, requests before: %s)' % (av, seq[:k]))
    else:
        from dynaphopy import Quasiparticle
        qp = call(Quasiparticle, dyn)
        if rng.random() < .5:
            call(dyn.get_mean_displacement_matrix)
        U = mean_matrix(data, sup, d['disp'], True)
        inv = np.linalg.inv(data['cell'])
        n = np.diag(np.linalg.norm(inv, axis=0))
        ref = {'cart': U, 'crys': np.array([inv.T @ u @ inv for u in U])}
        ref['uvrs'] = np.array([np.linalg.inv(n) @ c @ np.linalg.inv(n).T for c in ref['crys']])
        for kind in list(rng.permutation(['cart', 'crys', 'uvrs'])) + ['uvrs']:
            kw = {'coordinate_type': str(kind)}
            if kind == 'uvrs' and rng.random() < .3:
                kw = {}
            r = call(qp.get_anisotropic_displacement_parameters, print_on_screen=bool(rng.integers(2)), **kw)
            close(np.array(r), ref[kind], rtol=1e-7, atol=1e-13, what='displacement parameters (%s)' % kind)
    close(np.array(call(dyn.get_relative_trajectory)), d['disp'] + 0j, atol=1e-8, what='displacements afterwards')
    close(np.array(call(lambda: dyn.trajectory)), traj + 0j, what='trajectory afterwards')
