"""Renormalised force constants and commensurate wave vectors."""
import numpy as np
from dpv.concrete import lib, oracles as O
from dpv.concrete.lib import fail, close, equal, call, mix

FUNCTIONS = ['phonopy_link.get_renormalized_force_constants', 'phonopy_link.get_commensurate_points',
             'phonopy_link.get_equivalent_q_points_by_symmetry', 'Quasiparticle.get_commensurate_points_data',
             'Quasiparticle.get_renormalized_force_constants']
CASE_LIMIT = 90


def cases(rng, tier):
    for rep in range(36 if tier == 'quick' else 400):
        yield {'kind': ['harmonic', 'modified', 'equivalent'][rep % 3], 'cent': ['P', 'F', 'I', 'C'][rep // 3 % 4], 'nbasis': 1 + rep // 2 % 2,
               'cell': lib.CELLS[rep // 3 % 6], 'fcsup': [[1, 1, 1], [2, 1, 1], [1, 2, 2], [2, 2, 2], [1, 1, 3]][rep // 2 % 5], 'rep': rep}
    for rep in range(8 if tier == 'quick' else 80):
        yield {'kind': 'data', 'cent': 'PFIC'[rep % 4], 'nbasis': 1 + rep // 2 % 2, 'cell': ['cubic', 'hex', 'triclinic', 'ortho'][rep % 4],
               'sup': [[2, 1, 1], [1, 2, 1], [2, 2, 1], [1, 1, 1]][rep // 2 % 4], 'sym': rep % 2 == 0, 'md': rep % 3 == 2, 'rep': rep}


def commensurate(data, fcsup):
    """number of commensurate points and the test that a reduced vector is one"""
    prim = (data['cell'].T @ data['primitive']).T
    n = int(round(np.prod(fcsup) / abs(np.linalg.det(data['primitive']))))
    m = (np.diag(fcsup) @ data['cell']) @ np.linalg.inv(prim)
    return n, lambda q: np.abs(m @ q - np.round(m @ q)).max() < 1e-6


def check_points(pts, data, fcsup):
    n, ok = commensurate(data, fcsup)
    equal(len(pts), n, 'number of commensurate wave vectors')
    for i, q in enumerate(pts):
        if not ok(q):
            fail('%s is not commensurate with the supercell %s' % (q, fcsup))
        for p in pts[:i]:
            if np.abs((q - p) - np.round(q - p)).max() < 1e-6:
                fail('%s and %s are the same wave vector' % (q, p))


def phonon(data, fcsup, fc):
    from phonopy import Phonopy
    from phonopy.structure.atoms import PhonopyAtoms
    ph = Phonopy(PhonopyAtoms(symbols=data['elements'], scaled_positions=data['scaled'], cell=data['cell']),
                 np.diag(fcsup), primitive_matrix=data['primitive'])
    ph.force_constants = np.array(fc)
    return ph


def freqs(ph, q):
    from phonopy.physical_units import get_physical_units
    w = np.linalg.eigvalsh(ph.get_dynamical_matrix_at_q(q))
    return np.sqrt(abs(w)) * np.sign(w) * get_physical_units().DefaultToTHz


def check(case):
    from dynaphopy.interface import phonopy_link as L
    rng = mix(case)
    if case['kind'] == 'data':
        return check_data(case, rng)
    fcsup = case['fcsup'] if case['kind'] != 'equivalent' else [case['fcsup'][2]] * 3     # keeps the symmetry of the cell
    st, data = lib.forced_structure(rng, case['cent'], case['nbasis'], case['cell'], tuple(fcsup), kinds=list(rng.permutation(6)[:case['nbasis']]))
    pts = np.array(call(L.get_commensurate_points, st, np.diag(fcsup)))
    check_points(pts, data, fcsup)
    ph = phonon(data, fcsup, data['fc'])
    if case['kind'] == 'equivalent':
        for q in list(pts[rng.permutation(len(pts))[:4]]) + [rng.uniform(0, .5, 3)]:
            eq = [np.array(x) for x in call(L.get_equivalent_q_points_by_symmetry, np.array(q), st)]
            if not any(np.abs(x - q).max() < 1e-9 for x in eq):
                fail('%s is not among its own equivalent wave vectors %s' % (q, eq))
            f = freqs(ph, q)
            for x in eq:
                close(freqs(ph, x), f, rtol=1e-5, atol=2e-3, what='harmonic frequencies at %s, taken as equivalent to %s,' % (np.round(x, 4), np.round(q, 4)))
        return
    ev, fr = [], []
    for q in pts:
        e, f = call(L.obtain_eigenvectors_and_frequencies, st, q)
        ev.append(e)
        fr.append(np.array(f))
    if case['kind'] == 'harmonic':
        r = call(L.get_renormalized_force_constants, np.array(fr), ev, st, np.diag(fcsup))
        close(np.array(r.get_array()), data['fc'], rtol=1e-5, atol=1e-6, what='force constants of the harmonic frequencies')
        equal(np.array(r.get_supercell()).tolist(), np.diag(fcsup).tolist(), 'supercell of the force constants')
        return
    # other frequencies, the same for opposite wave vectors and for degenerate modes
    new = [None] * len(pts)
    for i, q in enumerate(pts):
        if new[i] is None:
            x = np.sort(rng.uniform(.5, 15, len(fr[i])))
            k = int(rng.integers(0, 3))
            x[:k] = -x[:k][::-1]
            g = np.zeros(len(x), int)
            for m in range(1, len(x)):
                g[m] = g[m - 1] + (abs(fr[i][m] - fr[i][m - 1]) > 1e-3)
            new[i] = np.array([x[g == k].mean() if False else x[list(g).index(k)] for k in g])
            for j, p in enumerate(pts):
                if np.abs((q + p) - np.round(q + p)).max() < 1e-6:
                    new[j] = new[i]
    given = np.array(new)
    keep = given.copy()
    r = call(L.get_renormalized_force_constants, given, ev, st, np.diag(fcsup))
    close(given, keep, what='frequencies after the call')
    p2 = phonon(data, fcsup, r.get_array())
    for q, f in zip(pts, new):
        close(freqs(p2, q), np.sort(f), rtol=1e-5, atol=5e-4, what='frequencies of the renormalised force constants at %s' % np.round(q, 3))


def check_data(case, rng):
    from dynaphopy import Quasiparticle
    from dynaphopy.interface import phonopy_link as L
    from dynaphopy.analysis import fitting
    fcsup = [1, 1, 1] if case['md'] else case['sup']
    st, data = lib.forced_structure(rng, case['cent'], case['nbasis'], case['cell'], tuple(fcsup), kinds=list(rng.permutation(6)[:case['nbasis']]))
    sup = case['sup']

    def new():
        o = call(Quasiparticle, lib.dynamics(st, data, sup, np.random.default_rng(case['rep'] + 5), steps=160, velocity=True, dt=.01)[0])
        p = o.parameters
        p.number_of_coefficients_mem = 12
        p.use_symmetry = case['sym']
        p.mesh_phonopy = (3, 3, 2)
        p.use_MD_cell_commensurate = case['md']
        p.frequency_range = np.linspace(.3, 25, 120)
        return o
    o = new()
    fitf = int(rng.integers(2)) * 2
    o.parameters.fitting_function = fitf
    q0 = np.array([[0, 0, 0.], [.5, 0, 0], [.3, .1, .2]][int(rng.integers(3))])
    call(o.set_reduced_q_vector, q0)
    auto = rng.random() < .4
    out = call(o.get_commensurate_points_data, auto_range=bool(auto))
    close(np.array(call(o.get_reduced_q_vector), float), q0, what='selected wave vector afterwards')
    pts = np.array(call(L.get_commensurate_points, st, np.diag(sup)))
    check_points(pts, data, sup)
    close(np.array(out['q_points'], float), pts, what='wave vectors of the data')
    n = len(pts)
    nb = 3 * len(set(data['types']))
    f, w, s = [np.array([[float(z) for z in y] for y in out[k]]) for k in ('frequencies', 'linewidths', 'frequency_shifts')]
    for x, name in ((f, 'frequencies'), (w, 'linewidths'), (s, 'frequency shifts')):
        equal(x.shape, (n, nb), 'shape of the ' + name)
    equal(len(out['eigenvectors']), n, 'number of eigenvector sets')
    equal(np.array(out['fc_supercell']).tolist(), np.diag(sup).tolist(), 'force constants supercell')
    rng_f = np.array(call(o.get_frequency_range))
    harm = []
    for i, q in enumerate(pts):
        e, h = call(L.obtain_eigenvectors_and_frequencies, st, q)
        harm.append(np.array(h))
        close(np.array(out['eigenvectors'][i]), e, atol=1e-7, what='eigenvectors of entry %d' % i)
        close(s[i], f[i] - h, atol=2e-3 if case['sym'] else 1e-9, what='frequency shift of entry %d' % i)
        if np.abs(q).max() < 1e-9:
            equal(f[i][:3].tolist(), [0.] * 3, 'acoustic frequencies at gamma')
            equal(w[i][:3].tolist(), [0.] * 3, 'acoustic linewidths at gamma')
        if case['sym']:
            eq = [np.array(x) for x in call(L.get_equivalent_q_points_by_symmetry, np.array(q), st)]
            for j in range(i):
                if any(np.abs(pts[j] - x).max() < 1e-12 for x in eq) and j > 0:
                    close(f[i], f[j], what='frequencies of the equivalent entries %d and %d' % (i, j))
                    break
            else:
                j = None
            if j is not None:
                continue
        c = new()
        c.parameters.fitting_function = fitf
        c.parameters.frequency_range = rng_f
        call(c.set_reduced_q_vector, np.array(q))
        spec = np.array(call(c.get_power_spectrum_phonon))
        d = call(fitting.phonon_fitting_analysis, spec, rng_f, harmonic_frequencies=np.array(h), thermal_expansion_shift=None,
                 show_plots=False, fitting_function_type=fitf, use_degeneracy=case['sym'])
        lo = 3 if np.abs(q).max() < 1e-9 else 0
        close(f[i][lo:], np.array([float(x) for x in d['positions']])[lo:], rtol=1e-4, atol=1e-4, what='frequencies of entry %d' % i)
        close(w[i][lo:], np.array([float(x) for x in d['widths']])[lo:], rtol=1e-3, atol=1e-3, what='linewidths of entry %d' % i)
    r = call(o.get_renormalized_force_constants)
    ref = call(L.get_renormalized_force_constants, f, out['eigenvectors'], st, np.diag(sup))
    close(np.array(r.get_array()), np.array(ref.get_array()), rtol=1e-7, atol=1e-9, what='renormalised force constants of the object')
