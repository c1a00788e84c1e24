"""HDF5 files."""
import os, subprocess, sys
import numpy as np
from dpv.concrete import lib
from dpv.concrete.lib import fail, close, equal, call, mix

FUNCTIONS = ['iofile.save_data_hdf5', 'iofile.initialize_from_hdf5_file', 'Quasiparticle.save_velocity_hdf5',
             'Quasiparticle.save_vc_hdf5', 'scripts/concath5']
SUPS = [[1, 1, 1], [2, 1, 1], [1, 2, 3], [2, 2, 1]]


def cases(rng, tier):
    for rep in range(90 if tier == 'quick' else 1200):
        yield {'kind': 'roundtrip', 'via': ['function', 'object', 'vc', 'object_v'][rep % 4], 'cell': lib.CELLS[rep % 6],
               'window': ['all', 'from', 'to', 'both'][rep // 4 % 4], 'read': rep % 3 != 2, 'memmap': rep % 5 == 1, 'rep': rep}
        if rep % 4 == 0:
            yield {'kind': 'join', 'what': ['both', 'velocity', 'vc', 'only'][rep // 4 % 4], 'files': 1 + rep // 4 % 3 + (rep // 4 % 2),
                   'skip': rep // 8 % 3, 'rep': rep}


def read(name):
    import h5py
    with h5py.File(name, 'r') as f:
        return {k: np.array(f[k]) for k in f}


def join(case, rng):
    import dynaphopy.interface.iofile as io
    sup = SUPS[int(rng.integers(4))]
    n = int(rng.integers(1, 5))
    first = case['skip']
    dt = float(rng.uniform(.001, .005))
    parts, names = [], []
    for i in range(case['files']):
        N = first + int(rng.integers(2 if i == 0 else 1, 6))
        p = {'time': rng.uniform(0, 9) + np.arange(N) * dt}
        if case['what'] != 'vc':
            p['velocity'] = rng.normal(size=(N, n, 3)) + 0j
        else:
            p['vc'] = rng.normal(size=(N, n, 3)) + 1j * rng.normal(size=(N, n, 3))
            p['reduced_q_vector'] = np.array([.5, 0, .5])
        if case['what'] in ('both', 'only'):
            p['trajectory'] = rng.normal(size=(N, n, 3)) + 0j
        name = 'part%d.h5' % i
        call(io.save_data_hdf5, name, p['time'], sup, **{k: v for k, v in p.items() if k != 'time'})
        parts.append(p)
        names.append(name)
    script = os.path.join(os.environ['DPV_REPO'], 'scripts', 'concath5')
    r = subprocess.run([sys.executable, script] + (['--velocity_only'] if case['what'] == 'only' else []) +
                       (['-f', str(first)] if first or rng.random() < .3 else []) + ['--'] * (first > 0) * 0 + names + ['out.h5'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        fail('concath5 of %s ends with %d: %s' % (names, r.returncode, r.stdout.decode()[-600:]))
    out = read('out.h5')
    for k in ('velocity', 'vc', 'trajectory'):
        if k not in parts[0] or (case['what'] == 'only' and k == 'trajectory'):
            if k in out:
                fail('the joined file has a %s' % k)
            continue
        if k not in out:
            fail('the joined file has no %s' % k)
        equal(out[k], np.concatenate([p[k][first:] for p in parts]), k + ' of the joined file')
    time = out['time']
    equal(len(time), sum(len(p['time']) - first for p in parts), 'number of times of the joined file')
    close(time, parts[0]['time'][first] + np.arange(len(time)) * dt, rtol=1e-9, what='times of the joined file')
    equal(np.array(out['super_cell']).tolist(), sup, 'supercell of the joined file')
    if case['what'] == 'vc':
        equal(out['reduced_q_vector'], parts[0]['reduced_q_vector'], 'wave vector of the joined file')
    for f in names:
        os.remove(f)


def check(case):
    import dynaphopy.interface.iofile as io
    from dynaphopy import Quasiparticle
    rng = mix(case)
    if case['kind'] == 'join':
        return join(case, rng)
    sup = SUPS[int(rng.integers(4))]
    st, data = lib.centred_structure(rng, int(rng.integers(1, 3)), ['P', 'C'][case['rep'] % 2], case['cell'])
    N = int(rng.integers(3, 12))
    dyn, d = lib.dynamics(st, data, sup, rng, steps=N, velocity=True, t0=float(rng.uniform(0, 2)), wrap=case['rep'] % 3 == 0)
    q = np.array([.5, 0, 0.]) * rng.integers(0, 2)
    vc = None
    name = 'data.h5'
    if case['via'] == 'function':
        call(io.save_data_hdf5, name, d['time'], sup, trajectory=d['traj'] + 0j, velocity=d['vel'] + 0j)
    else:
        o = call(Quasiparticle, dyn)
        if case['via'] == 'object':
            call(o.save_velocity_hdf5, name)
        elif case['via'] == 'object_v':
            call(o.save_velocity_hdf5, name, save_trajectory=False)
        else:
            call(o.set_reduced_q_vector, q)
            vc = np.array(call(o.get_vc))
            call(o.save_vc_hdf5, name)
    a, b, kw = 1, N, {}
    if case['window'] in ('from', 'both'):
        a = int(rng.integers(1, N + 1)); kw['initial_cut'] = a
    if case['window'] in ('to', 'both'):
        b = int(rng.integers(a, N + 1)); kw['final_cut'] = b
    sel = slice(a - 1, b)
    if not case['read']:
        kw['read_trajectory'] = False
    r = call(io.initialize_from_hdf5_file, name, st, memmap=case['memmap'], **kw)
    what = ' of %s read with %s' % (case['via'], kw)
    if vc is not None:
        close(np.array(r[0]), vc[sel], rtol=1e-12, what='projected velocities' + what)
        close(np.array(r[1], float), q, what='wave vector' + what)
        r = r[2]
    else:
        equal(np.array(r.velocity), d['vel'][sel] + 0j, 'velocities' + what)
        if case['read'] and case['via'] != 'object_v':
            equal(np.array(call(lambda: r.trajectory)), d['traj'][sel] + 0j, 'trajectory' + what)
    equal(np.array(r.get_time(), float), d['time'][sel], 'times' + what)
    close(np.array(r.get_supercell(), float), d['cell'], what='cell' + what)
    equal([int(x) for x in call(r.get_supercell_matrix)], list(sup), 'supercell' + what)
    os.remove(name)
