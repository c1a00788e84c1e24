"""Assembly of the spectra from atoms, coordinates and wave vectors."""
import numpy as np
from dpv.concrete import lib, oracles as O
from dpv.concrete.lib import fail, close, equal, call, mix

FUNCTIONS = ['Quasiparticle.get_power_spectrum_full', 'Quasiparticle.get_power_spectrum_partials',
             'Quasiparticle.get_power_spectrum_wave_vector', 'Quasiparticle.get_power_spectrum_phonon']
CENT = ['P', 'F', 'I', 'Z2']
SUPS = [[1, 1, 1], [2, 1, 1], [1, 2, 1], [1, 1, 3], [2, 2, 1]]


def cases(rng, tier):
    for rep in range(40 if tier == 'quick' else 500):
        yield {'kind': 'direct', 'cent': CENT[rep % 4], 'sup': SUPS[rep % 5], 'alg': rep % 4, 'memmap': rep % 3 == 1,
               'silent': bool(rep // 4 % 2), 'rep': rep, 'project': rep % 3, 'nbasis': 1 + rep % 3}
    for rep in range(24 if tier == 'quick' else 200):
        yield {'kind': 'wave', 'cent': CENT[rep % 3], 'sup': SUPS[rep // 3 % 5], 'alg': rep // 2 % 4, 'sym': bool(rep % 2),
               'silent': bool(rep // 4 % 2), 'rep': rep, 'project': rep % 2, 'nbasis': 1 + rep // 2 % 2}


def setup(case, rng, forced):
    from dynaphopy import Quasiparticle
    from dynaphopy.parameters import Parameters
    if forced:
        kinds = [int(k) for k in rng.permutation(6)[:case['nbasis']]]
        cell = 'cubic' if case['sym'] else 'triclinic'
        if case['sym']:   # symmetric crystals
            c = float(rng.uniform(4, 6))
            prim, points = lib.CENTRING[case['cent']]
            basis = [[0, 0, 0], [.5, .5, .5]] if case['cent'] != 'I' else [[0, 0, 0]]
            basis = basis[:case['nbasis']]
            s = np.array([np.array(b) + p for b in basis for p in points]); s -= np.floor(s)
            owner = np.repeat(np.arange(len(basis)), len(points))
            el = [lib.ELEMENTS[kinds[o]][0] for o in owner]
            st, data = lib.make_structure(np.eye(3) * c, s, el, None, prim, el_masses=[lib.ELEMENTS[kinds[o]][1] for o in owner])
            data['types'] = owner
            from dynaphopy.interface.phonopy_link import ForceConstants
            st.set_force_constants(ForceConstants(lib.spring_fc(data, (1, 1, 1)), supercell=np.eye(3, dtype=int)))
        else:
            st, data = lib.forced_structure(rng, case['cent'], case['nbasis'], cell, kinds=kinds)
    else:
        st, data = lib.centred_structure(rng, case['nbasis'], case['cent'], lib.CELLS[case['rep'] % 6])
    steps = int(rng.integers(30, 45))
    dyn, d = lib.dynamics(st, data, case['sup'], rng, steps=steps, dt=0.01, velocity=True, memmap=case.get('memmap', False))
    p = Parameters()
    p.silent = case['silent']
    p.use_symmetry = case.get('sym', False)
    p.number_of_coefficients_mem = 6
    p.correlation_function_step = 3
    p.frequency_range = np.linspace(0.5, 30, 6)
    p.power_spectra_algorithm = case['alg']
    return call(Quasiparticle, dyn), dyn, d, data, p


def check(case):
    rng = mix(case)
    sup = case['sup']
    q, dyn, d, data, p = setup(case, rng, case['kind'] == 'wave')
    dt = 0.01
    alg = case['alg']
    ntypes = len(set(data['types']))
    if case['kind'] == 'direct':
        mw = O.mass_weighted(data, sup, d['vel'])
        spec = np.array([[O.column_spectrum(alg, mw[:, i, j], dt, p) for j in range(3)] for i in range(mw.shape[1])])
        t = O.super_types(data, sup)
        atom = -1
        if case['project']:
            atom = int(rng.integers(ntypes))
            if rng.random() < .5:
                call(q.get_power_spectrum_full)
            call(q.set_projection_onto_atom_type, atom)
        sel = (t == atom) if atom >= 0 else np.ones(len(t), bool)
        ref = spec[sel].sum(axis=(0, 1))
        if case['project'] == 2:
            coord = int(rng.integers(3))
            r = np.array(call(q.get_power_spectrum_full, projection_on_coordinate=coord))
            close(r, spec[sel][:, coord].sum(axis=0), rtol=1e-7, what='full spectrum projected on atom %d, coordinate %d (silent=%s)' % (atom, coord, p.silent))
        r = np.array(call(q.get_power_spectrum_full))
        close(r, ref, rtol=1e-7, what='full spectrum (algorithm %d, silent=%s, atom %d)' % (alg, p.silent, atom))
        close(np.array(call(q.get_power_spectrum_full)), ref, rtol=1e-7, what='full spectrum, second request')
        part = np.array(call(q.get_power_spectrum_partials))
        close(part, spec.sum(axis=1).T, rtol=1e-7, what='partial spectra')
        close(np.array(dyn.velocity), d['vel'] + 0j, what='velocity afterwards')
        return
    com = np.array(call(_points, dyn.structure, sup, data))
    qv = com[rng.integers(len(com))] if rng.random() < .7 else np.round(rng.uniform(0, .5, 3), 2)
    call(q.set_reduced_q_vector, np.array(qv))
    atom = -1
    if case['project']:
        atom = int(rng.integers(ntypes)); call(q.set_projection_onto_atom_type, atom)
    from dynaphopy.interface.phonopy_link import get_equivalent_q_points_by_symmetry, obtain_eigenvectors_and_frequencies
    pts = call(get_equivalent_q_points_by_symmetry, np.array(qv), dyn.structure) if p.use_symmetry else [qv]
    wv, ph = [], []
    for x in pts:
        vc = O.project(data, sup, d['vel'], O.q_cart(data, x), atom)
        wv.append(np.array([[O.column_spectrum(alg, vc[:, j, k], dt, p) for k in range(3)] for j in range(ntypes)]).sum(axis=(0, 1)))
        ev = call(obtain_eigenvectors_and_frequencies, dyn.structure, np.array(x), print_data=False)[0]
        vq = O.mode_project(vc, ev)
        ph.append(np.array([O.column_spectrum(alg, vq[:, m], dt, p) for m in range(vq.shape[1])]).T)
    wv = np.mean(wv, axis=0); ph = np.mean(ph, axis=0)
    order = rng.permutation(2)
    for o in order:
        if o == 0:
            r = np.array(call(q.get_power_spectrum_wave_vector))
            close(r, wv, rtol=1e-6, what='wave vector spectrum (algorithm %d, %d equivalent wave vectors)' % (alg, len(pts)))
        else:
            r = np.array(call(q.get_power_spectrum_phonon))
            if rng.random() < 2:   # columns, eigenvectors of degenerate modes are defined up to a rotation: same call
                close(r, ph, rtol=1e-6, what='phonon spectrum (algorithm %d, %d equivalent wave vectors)' % (alg, len(pts)))
        close(np.array(call(q.get_reduced_q_vector), float), np.array(qv, float), what='selected wave vector afterwards')
    close(np.array(call(q.get_power_spectrum_wave_vector)), wv, rtol=1e-6, what='wave vector spectrum, second request')
    if not p.use_symmetry:
        close(np.array(call(q.get_vc)), O.project(data, sup, d['vel'], O.q_cart(data, qv), atom), rtol=1e-8, what='projection afterwards')


def _points(st, sup, data):
    from dynaphopy.interface.phonopy_link import get_commensurate_points
    return get_commensurate_points(st, np.diag(sup))
