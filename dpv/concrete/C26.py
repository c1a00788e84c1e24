"""Harmonic densities of states, thermal properties and dispersion bands."""
import numpy as np
from dpv.concrete import lib
from dpv.concrete.lib import fail, close, equal, call, mix
from dpv.concrete.C24 import phonon, freqs

FUNCTIONS = ['phonopy_link.obtain_phonopy_dos', 'phonopy_link.obtain_phonopy_thermal_properties',
             'phonopy_link.obtain_phonon_dispersion_bands', 'Quasiparticle.get_renormalized_phonon_dispersion_bands',
             'Quasiparticle.get_thermal_properties']
CASE_LIMIT = 90
SUPS = [[1, 1, 1], [2, 1, 1], [1, 2, 1]]


def cases(rng, tier):
    for rep in range(48 if tier == 'quick' else 500):
        yield {'kind': ['dos', 'thermal', 'bands', 'dos'][rep % 4], 'cent': 'FPIC'[rep // 4 % 4], 'nbasis': 1 + rep // 2 % 2,
               'cell': lib.CELLS[rep % 6], 'given': rep // 4 % 2 == 0, 'project': rep // 3 % 2 == 0, 'rep': rep, 'free': rep % 5 == 0}
    for rep in range(8 if tier == 'quick' else 80):
        yield {'kind': ['renormalized', 'object'][rep % 2], 'cent': 'FPCI'[rep // 2 % 4], 'nbasis': 1 + rep % 2, 'cell': lib.CELLS[rep % 6],
               'rep': rep, 'connect': rep // 2 % 2 == 1, 'project': rep // 4 % 2 == 1}


def density(ph, mesh, atom, **kw):
    if atom < 0:
        ph.run_mesh(mesh)
        ph.run_total_dos(use_tetrahedron_method=True, **kw)
        d = ph.get_total_dos_dict()
        return np.array(d['frequency_points']), np.array(d['total_dos'])
    ph.run_mesh(mesh, with_eigenvectors=True, is_mesh_symmetry=False)
    ph.run_projected_dos(**{k: v for k, v in kw.items() if k != 'freq_pitch'})
    d = ph.get_projected_dos_dict()
    return np.array(d['frequency_points']), np.array(d['projected_dos'])[atom]


def check(case):
    from dynaphopy.interface import phonopy_link as L
    rng = mix(case)
    fcsup = SUPS[int(rng.integers(3))]
    if case['cent'] == 'P':
        case['nbasis'] = 2      # there is something else than acoustic modes
    st, data = lib.forced_structure(rng, case['cent'], case['nbasis'], case['cell'], tuple(fcsup), kinds=list(rng.permutation(6)[:case['nbasis']]))
    ratio = 1 / abs(np.linalg.det(data['primitive']))
    if case['kind'] in ('renormalized', 'object'):
        return check_object(case, rng, st, data, fcsup, ratio)
    fc, sup, kw = data['fc'], fcsup, {}
    if case['given']:
        sup = SUPS[int(rng.integers(3))]
        fc = lib.spring_fc(data, tuple(sup), k0=float(rng.uniform(3, 12)))
        kw['force_constants'] = L.ForceConstants(fc, supercell=np.diag(sup))
    ph = phonon(data, sup, fc)
    what = ' (%s cell, %s force constants)' % (case['cent'], 'given' if case['given'] else 'harmonic')
    mesh = [int(x) for x in rng.integers(2, 5, 3)]
    if case['kind'] == 'thermal':
        T = float(rng.integers(5, 900))
        f, s, c = call(L.obtain_phonopy_thermal_properties, st, T, mesh=mesh, **kw)
        ph.run_mesh(mesh)
        ph.run_thermal_properties(temperatures=[T])
        d = ph.get_thermal_properties_dict()
        ref = [float(d[k][0]) * ratio for k in ('free_energy', 'entropy', 'heat_capacity')]
        close(np.array([float(f), float(s), float(c)]), np.array(ref), rtol=1e-7, what='free energy, entropy, heat capacity' + what)
        return
    if case['kind'] == 'dos':
        atom = int(rng.integers(len(set(data['types'])))) if case['project'] else -1
        lim = {} if case['free'] else {'freq_min': .01, 'freq_max': float(rng.uniform(5, 20))}
        if not case['free'] and atom < 0:
            lim['freq_pitch'] = .1
        r = np.array(call(L.obtain_phonopy_dos, st, mesh=mesh, projected_on_atom=atom, **lim, **kw))
        f, d = density(ph, mesh, atom, **lim)
        close(r[0], f, atol=1e-6, what='frequencies of the density of states' + what)
        close(r[1], d * ratio, rtol=1e-6, atol=1e-8, what='density of states of atom %d' % atom + what)
        return
    k = int(rng.integers(1, 4)); res = int(rng.integers(1, 12))
    ranges = np.round(rng.uniform(-.5, .5, (k, 2, 3)), 3)
    connect = bool(rng.random() < .3)
    r = call(L.obtain_phonon_dispersion_bands, st, ranges if rng.random() < .5 else [list(x) for x in ranges], band_resolution=res,
             band_connection=connect, **kw)
    check_bands(r, ranges, res, ph, connect, what)


def check_bands(r, ranges, res, ph, connect, what):
    equal([len(x) for x in r[:4]], [len(ranges)] * 4, 'number of segments' + what)
    for i, (a, b) in enumerate(ranges):
        q = np.array([a + (b - a) * j / res for j in range(res + 1)])
        close(np.array(r[0][i]), q, atol=1e-9, what='wave vectors of segment %d' % i + what)
        d = np.array(r[1][i], float)
        if len(d) != res + 1 or np.any(np.diff(d) < -1e-9):
            fail('distances along segment %d are not ascending' % i + what)
        step = np.diff(d)
        close(step, np.full(res, step.mean()), rtol=1e-6, atol=1e-9, what='distances between wave vectors of segment %d' % i + what)
        f = np.array(r[2][i])
        ref = np.array([freqs(ph, x) for x in q])
        if connect:
            f = np.sort(f, axis=1)
        close(f, ref, rtol=1e-5, atol=3e-3, what='frequencies along segment %d' % i + what)


def check_object(case, rng, st, data, fcsup, ratio):
    from dynaphopy import Quasiparticle
    from dynaphopy.interface import phonopy_link as L
    dyn, d = lib.dynamics(st, data, fcsup, rng, steps=160, velocity=True, dt=.01)
    o = call(Quasiparticle, dyn)
    p = o.parameters
    p.silent = True
    p.number_of_coefficients_mem = 12
    p.use_symmetry = False
    mesh = [int(x) for x in rng.integers(2, 5, 3)]
    p.mesh_phonopy = mesh
    p.frequency_range = np.linspace(.3, 25, 120)
    if case['kind'] == 'object':
        T = float(rng.uniform(5, 900))
        call(o.set_temperature, T)
        from dynaphopy.analysis import thermal_properties as thm
        atom = int(rng.integers(len(set(data['types'])))) if case['project'] else -1
        if case['project']:
            call(o.set_projection_onto_atom_type, atom)
        norm = bool(rng.random() < .4)
        other = rng.random() < .5
        fc, kw = data['fc'], {}
        if other:
            fc = lib.spring_fc(data, tuple(fcsup), k0=float(rng.uniform(3, 12)))
            kw['force_constants'] = L.ForceConstants(fc, supercell=np.diag(fcsup))
        lim = {'freq_min': .01, 'freq_max': 25., 'freq_pitch': p.spectrum_resolution}
        f, dos = density(phonon(data, fcsup, fc), mesh, atom, **lim)
        dos = dos * ratio
        n = len(data['masses'])
        from scipy.integrate import simpson
        total = simpson(dos, x=f) / (3 * n)
        if norm:
            dos = dos / total
            total = 1.
            if atom > -1:
                m = len(set(data['types']))
                dos, total = dos / m, 1. / m
        ref = [float(call(g, T, f, dos)) for g in (thm.get_free_energy, thm.get_entropy, thm.get_cv, thm.get_total_energy)]
        if other:
            fh, dh = density(phonon(data, fcsup, data['fc']), mesh, atom, **lim)
            c = float(call(thm.get_free_energy_correction_dos, T, fh, dh * ratio, dos))
            ref[0] += c
            ref[3] += c
        r = [float(x) for x in call(o.get_thermal_properties, normalize_dos=norm, **kw)]
        close(np.array(r), np.array(ref + [total]), rtol=1e-5, atol=1e-6, what='free energy, entropy, heat capacity, total energy and normalisation')
        return
    k = int(rng.integers(1, 4)); res = int(rng.integers(2, 9))
    ranges = np.round(rng.uniform(-.5, .5, (k, 2, 3)), 3)
    labels = [('A%d' % i, 'B%d' % i) for i in range(k)]
    br = {'ranges': [x for x in ranges]}
    labelled = rng.random() < .5
    if labelled:
        br['labels'] = labels
    p.band_ranges = br
    p.band_resolution = res
    lw = bool(rng.random() < .6)
    out = call(o.get_renormalized_phonon_dispersion_bands, with_linewidths=lw, band_connection=case['connect'])
    fc = np.array(call(o.get_renormalized_force_constants).get_array())
    com = call(o.get_commensurate_points_data)
    p0, p1 = phonon(data, fcsup, data['fc']), phonon(data, fcsup, fc)
    equal(len(out), k, 'number of segments')
    nb = 3 * len(set(data['types']))

    def branches(b, key):
        equal(sorted(b[key]), sorted('branch_%d' % i for i in range(nb)), 'branches of ' + key)
        return np.array([b[key]['branch_%d' % i] for i in range(nb)]).T
    srt = (lambda x: np.sort(x, axis=1)) if case['connect'] else (lambda x: x)
    for i, b in enumerate(out):
        q = np.array([ranges[i][0] + (ranges[i][1] - ranges[i][0]) * j / res for j in range(res + 1)])
        close(np.array(b['q_bounds']['inf'], float), ranges[i][0], what='first wave vector of segment %d' % i)
        close(np.array(b['q_bounds']['sup'], float), ranges[i][1], what='last wave vector of segment %d' % i)
        if labelled:
            equal((b['labels']['inf'], b['labels']['sup']), labels[i], 'labels of segment %d' % i)
        h, r, s = [branches(b, x) for x in ('harmonic_frequencies', 'renormalized_frequencies', 'frequency_shifts')]
        close(srt(h), np.array([freqs(p0, x) for x in q]), rtol=1e-5, atol=3e-3, what='harmonic bands of segment %d' % i)
        if not case['connect']:
            close(r, np.array([freqs(p1, x) for x in q]), rtol=1e-4, atol=3e-3, what='renormalised bands of segment %d' % i)
        close(s, r - h, atol=1e-9, what='frequency shifts of segment %d' % i)
        if lw:
            lo, hi, w = [branches(b, x) for x in ('linewidth_minus', 'linewidth_plus', 'linewidth')]
            close(w, hi - lo, atol=1e-9, what='linewidths of segment %d' % i)
            if not case['connect']:
                for sign, x in ((1, hi), (-1, lo)):
                    g = call(L.get_renormalized_force_constants, com['frequencies'] + sign * com['linewidths'] / 2, com['eigenvectors'], st, np.diag(fcsup))
                    pg = phonon(data, fcsup, g.get_array())
                    close(x, np.array([freqs(pg, z) for z in q]), rtol=1e-4, atol=3e-3, what='bands with %+d half linewidth' % sign)
