"""Projection onto phonon modes and eigenvectors."""
import numpy as np
from dpv.concrete import lib, oracles as O
from dpv.concrete.lib import fail, close, equal, call, mix

FUNCTIONS = ['projection.project_onto_phonon', 'phonopy_link.obtain_eigenvectors_and_frequencies',
             'Quasiparticle.get_eigenvectors', 'Quasiparticle.get_frequencies', 'Quasiparticle.get_vq']


def cases(rng, tier):
    for rep in range(40 if tier == 'quick' else 400):
        yield {'kind': 'function', 'rep': rep}
    for rep in range(24 if tier == 'quick' else 250):
        yield {'kind': 'crystal', 'cent': ['P', 'F', 'I', 'C'][rep % 4], 'nbasis': 1 + rep % 3, 'cell': lib.CELLS[rep % 6],
               'fcsup': [[1, 1, 1], [2, 1, 1], [1, 2, 2]][rep // 2 % 3], 'rep': rep, 'order': rep % 4}


def dynamical_matrix(ph, q):
    return ph.get_dynamical_matrix_at_q(q)


def check(case):
    rng = mix(case)
    if case['kind'] == 'function':
        from dynaphopy import projection
        n = int(rng.integers(1, 5)); steps = int(rng.integers(1, 7)); modes = int(rng.integers(1, 3 * n + 1))
        vc = rng.normal(size=(steps, n, 3)) + 1j * rng.normal(size=(steps, n, 3))
        ev = rng.normal(size=(modes, n, 3)) + 1j * rng.normal(size=(modes, n, 3))
        v0, e0 = vc.copy(), ev.copy()
        r = np.array(call(projection.project_onto_phonon, vc, ev))
        close(r, O.mode_project(vc, ev), rtol=1e-10, what='projection onto %d modes' % modes)
        equal(vc, v0, 'velocity after the call'); equal(ev, e0, 'eigenvectors after the call')
        m = np.linalg.qr(rng.normal(size=(3 * n, 3 * n)) + 1j * rng.normal(size=(3 * n, 3 * n)))[0].reshape(3 * n, n, 3)
        r = np.array(call(projection.project_onto_phonon, vc, m))
        close((abs(r) ** 2).sum(axis=1), (abs(vc) ** 2).sum(axis=(1, 2)), rtol=1e-9, what='total squared modulus')
        return
    st, data = lib.forced_structure(rng, case['cent'], case['nbasis'], case['cell'], tuple(case['fcsup']),
                                    kinds=list(rng.permutation(6)[:case['nbasis']]))
    n = case['nbasis']
    qs = [np.round(rng.uniform(-.5, .5, 3), 2), np.array([.5, 0, 0]), rng.uniform(-1.5, 1.5, 3), np.zeros(3)]
    # independent dynamical matrix
    from phonopy import Phonopy
    from phonopy.structure.atoms import PhonopyAtoms
    ph = Phonopy(PhonopyAtoms(symbols=data['elements'], scaled_positions=data['scaled'], cell=data['cell']),
                 np.diag(case['fcsup']), primitive_matrix=data['primitive'])
    ph.force_constants = data['fc']
    from dynaphopy import Quasiparticle
    from dynaphopy.interface.phonopy_link import obtain_eigenvectors_and_frequencies
    dyn, d = lib.dynamics(st, data, [1, 2, 1], rng, steps=5, velocity=True, dt=0.01)
    qp = call(Quasiparticle, dyn)
    for i, q in enumerate(qs):
        call(qp.set_reduced_q_vector, q)
        if case['order'] == 0:
            ev = np.array(call(qp.get_eigenvectors)); fr = np.array(call(qp.get_frequencies))
        elif case['order'] == 1:
            fr = np.array(call(qp.get_frequencies)); ev = np.array(call(qp.get_eigenvectors))
        elif case['order'] == 2:
            call(qp.get_vq); ev = np.array(call(qp.get_eigenvectors)); fr = np.array(call(qp.get_frequencies))
        else:
            ev, fr = call(obtain_eigenvectors_and_frequencies, st, q)
            ev, fr = np.array(ev), np.array(fr)
        if ev.shape != (3 * n, n, 3) or fr.shape != (3 * n,):
            fail('eigenvectors of shape %s, frequencies %s for %d atoms' % (ev.shape, fr.shape, n))
        flat = ev.reshape(3 * n, 3 * n)
        close(flat @ np.conj(flat).T, np.eye(3 * n) + 0j, atol=1e-7, what='scalar products of the eigenvectors')
        dm = dynamical_matrix(ph, q)
        from phonopy.physical_units import get_physical_units
        f = get_physical_units().DefaultToTHz
        lam = (fr / f) ** 2 * np.sign(fr)
        scale = np.abs(np.linalg.eigvalsh(dm)).max()
        for m in range(3 * n):
            r = dm @ flat[m] - lam[m] * flat[m]
            if np.abs(r).max() > 1e-6 * scale + 1e-9:
                fail('vector %d is not an eigenvector of the dynamical matrix at %s with its frequency %.5f (residual %.2e)'
                     % (m, np.round(q, 3), fr[m], np.abs(r).max()))
        if np.any(np.diff(fr) < -1e-6):
            fail('frequencies are not ascending: %s' % fr)
        vc = O.project(data, [1, 2, 1], d['vel'], O.q_cart(data, q))
        close(np.array(call(qp.get_vq)), O.mode_project(vc, ev), rtol=1e-7, what='velocity projected onto the modes')
