"""Files of results."""
import os
import numpy as np
from dpv.concrete import lib
from dpv.concrete.lib import fail, close, equal, call, mix

FUNCTIONS = ['iofile.write_curve_to_file', 'iofile.save_quasiparticle_data_to_file', 'iofile.save_mesh_data_to_yaml_file', 'iofile.save_bands_data_to_file',
             'Quasiparticle.write_*', 'Quasiparticle.save_vc', 'Quasiparticle.save_vq', 'phonopy_link.save_force_constants_to_file']
KINDS = ['curve', 'full', 'wave', 'phonon', 'points', 'extra', 'mesh', 'bands', 'vc', 'vq', 'fc', 'curve']


def cases(rng, tier):
    for rep in range(84 if tier == 'quick' else 900):
        yield {'kind': KINDS[rep % 12], 'over': rep // 12 % 2 == 1, 'rep': rep, 'through': rep // 24 % 2 == 0, 'nbasis': 1 + rep // 12 % 3}


def numbers(text):
    return np.array([[complex(x.replace('+-', '-')) for x in l.split()] for l in text.strip().split('\n')])


def values(rng, *shape):
    return rng.normal(size=shape) * 10. ** rng.integers(-3, 3, shape)


def check(case):
    import yaml
    from dynaphopy import Quasiparticle
    from dynaphopy.interface import iofile as io, phonopy_link as L
    rng = mix(case)
    kind = case['kind']
    if case['over']:
        open('out', 'w').write('9.0 9.0\n' * 500)
    if kind == 'curve':
        r, c = int(rng.integers(1, 40)), int(rng.integers(1, 9))
        x, y = np.sort(rng.uniform(-30, 500, r)), rng.normal(size=(r, c)) * 10. ** rng.integers(-30, 30, (r, c))
        y0, x0 = y.copy(), x.copy()
        call(io.write_curve_to_file, x, y, 'out')
        got = np.loadtxt('out', ndmin=2)
        equal(got.shape, (r, c + 1), 'rows and columns')
        close(got[:, 0], x0, rtol=0, atol=5.1e-5, what='frequencies')
        if (np.abs(got[:, 1:] - y0) > 1e-9 * np.abs(y0)).any():
            fail('values of the curves: %r instead of %r' % (got[:2, 1:], y0[:2]))
        close(y, y0, what='curves afterwards')
        return
    nq, nm = int(rng.integers(1, 6)), int(rng.integers(1, 7))
    if kind == 'fc':
        n = int(rng.integers(1, 5))
        fc = values(rng, n, n, 3, 3)
        call(L.save_force_constants_to_file, L.ForceConstants(fc), 'out')
        from phonopy.file_IO import parse_FORCE_CONSTANTS
        close(np.array(parse_FORCE_CONSTANTS(filename='out')), fc, rtol=0, atol=1e-12, what='force constants')
        return
    st, data = lib.centred_structure(rng, case['nbasis'], 'P', 'triclinic')
    dyn, d = lib.dynamics(st, data, [2, 1, 1], rng, steps=int(rng.integers(6, 14)), velocity=True)
    qp = call(Quasiparticle, dyn)
    if kind in ('points', 'extra'):
        p = {'q_points': [values(rng, 3) for _ in range(nq)], 'eigenvectors': None, 'fc_supercell': np.eye(3)}
        p.update({k: values(rng, nq, nm) for k in ('frequencies', 'linewidths', 'frequency_shifts')})
        gv = values(rng, nq, nm, 3)
        e = {'group_velocity': [g for g in gv] if rng.random() < .5 else gv, 'q_points': p['q_points'], 'fc_supercell': np.eye(3)}
        keys = set(p)
        if case['through']:
            qp.get_commensurate_points_data = lambda *a, **k: p
            qp.get_commensurate_points_properties = lambda *a, **k: e
            call(qp.write_quasiparticles_data, 'out', **({'with_extra': True} if kind == 'extra' else {}))
        else:
            call(io.save_quasiparticle_data_to_file, dict(p, **(e if kind == 'extra' else {})), 'out')
        equal(set(p), keys, 'remembered quantities afterwards')
        got = yaml.safe_load(open('out'))
        equal(len(got), nq, 'wave vectors in the file')
        for i in range(nq):
            w = {'reduced_wave_vector': p['q_points'][i], 'frequencies': p['frequencies'][i], 'linewidths': p['linewidths'][i], 'frequency_shifts': p['frequency_shifts'][i]}
            equal(set(got[i]), set(w) | ({'group_velocity'} if kind == 'extra' else set()), 'quantities of wave vector %d' % i)
            for k in w:
                close(np.array(got[i][k], float), w[k], rtol=0, atol=5.1e-9, what='%s of wave vector %d' % (k, i))
            if kind == 'extra':
                close(np.array([[g[a] for a in 'xyz'] for g in got[i]['group_velocity']], float), gv[i], rtol=0, atol=5.1e-9, what='group velocities of wave vector %d' % i)
    elif kind == 'mesh':
        m = (values(rng, nq, 3), rng.integers(1, 49, nq), values(rng, nq, nm), values(rng, nq, nm))
        if case['through']:
            qp.get_mesh_frequencies_and_linewidths = lambda *a, **k: m
            call(qp.write_mesh_data, 'out')
        else:
            call(io.save_mesh_data_to_yaml_file, m, 'out')
        got = yaml.safe_load(open('out'))
        equal(len(got), nq, 'wave vectors in the file')
        for i in range(nq):
            equal(set(got[i]), {'reduced_wave_vector', 'multiplicity', 'frequencies', 'linewidths'}, 'quantities of wave vector %d' % i)
            for k, v in zip(('reduced_wave_vector', 'multiplicity', 'frequencies', 'linewidths'), m):
                close(np.array(got[i][k], float), v[i], rtol=0, atol=5.1e-9, what='%s of wave vector %d' % (k, i))
    elif kind == 'bands':
        b = [{'q_path_distances': values(rng, 5).tolist(), 'labels': {'inf': 'GAMMA', 'sup': 'X'}, 'linewidth': {'branch_%d' % k: values(rng, 5).tolist() for k in range(nm)},
              'q_bounds': {'q_inf': [0., .25, .5]}} for _ in range(nq)]
        if case['through']:
            asked = []
            qp.get_renormalized_phonon_dispersion_bands = lambda with_linewidths=False, band_connection=False, **k: asked.append((with_linewidths, band_connection)) or b
            call(qp.write_renormalized_phonon_dispersion_bands, 'out')
            equal([tuple(map(bool, x)) for x in asked], [(True, True)], 'bands with linewidths and connected branches')
        else:
            call(io.save_bands_data_to_file, b, 'out')
        got = yaml.safe_load(open('out'))
        equal(len(got), nq, 'paths in the file')
        for x, y in zip(got, b):
            equal(set(x), set(y), 'quantities of a path')
            equal(x['labels'], y['labels'], 'labels of a path')
            close(np.array(x['q_path_distances']), np.array(y['q_path_distances']), rtol=0, atol=5.1e-9, what='distances')
            equal(set(x['linewidth']), set(y['linewidth']), 'branches')
            for k in y['linewidth']:
                close(np.array(x['linewidth'][k]), np.array(y['linewidth'][k]), rtol=0, atol=5.1e-9, what='linewidths of ' + k)
    elif kind in ('vc', 'vq'):
        if kind == 'vc':
            call(qp.set_reduced_q_vector, rng.integers(-3, 4, 3) / 4)
            v = np.array(call(qp.get_vc))
            bad = [0, -1, v.shape[1] + 1]
            a = int(rng.integers(1, v.shape[1] + 1))
            if a == 1 and rng.random() < .5:
                call(qp.save_vc, 'out')
            else:
                call(qp.save_vc, 'out', a) if rng.random() < .5 else call(qp.save_vc, 'out', atom=a)
            want = v[:, a - 1]
        else:
            want = (rng.normal(size=(v_ := int(rng.integers(2, 9)), nm)) + 1j * rng.normal(size=(v_, nm))) * 10. ** rng.integers(-20, 20)
            qp.get_vq = lambda *a, **k: want
            call(qp.save_vq, 'out')
        got = numbers(open('out').read())
        close(got.real, want.real, rtol=2e-8, atol=0, what='projected velocity')
        close(got.imag, want.imag, rtol=2e-8, atol=0, what='projected velocity')
        if kind == 'vc':
            for b in bad:
                try:
                    call(qp.save_vc, 'other', b)
                except Exception:
                    continue
                fail('atom %d of %d is not refused' % (b, v.shape[1]))
    else:
        qp.select_power_spectra_algorithm(int(rng.choice([1, 2]))) if rng.random() < .9 else None
        call(qp.set_spectra_resolution, float(rng.choice([.5, 1., 2.3])))
        call(qp.set_frequency_limits, [float(rng.choice([0, .5])), float(rng.choice([12, 25]))])
        call(qp.set_number_of_mem_coefficients, 3)
        freq = np.array(qp.get_frequency_range(), float)
        if kind == 'phonon':
            s = values(rng, len(freq), nm)
            qp.get_power_spectrum_phonon = lambda *a, **k: s
            call(qp.write_power_spectrum_phonon, 'out')
        else:
            name = 'full' if kind == 'full' else 'wave_vector'
            s = np.array(call(getattr(qp, 'get_power_spectrum_' + name)))
            call(getattr(qp, 'write_power_spectrum_' + name), 'out')
            s = s[:, None]
        got = np.loadtxt('out', ndmin=2)
        equal(got.shape, (len(freq), s.shape[1] + 1), 'rows and columns')
        close(got[:, 0], freq, rtol=0, atol=5.1e-5, what='frequencies')
        close(got[:, 1:], s, rtol=1e-9, atol=1e-300, what='spectra')
