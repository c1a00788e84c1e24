"""Trajectory readers."""
import numpy as np
from dpv.concrete import lib
from dpv.concrete.lib import fail, close, equal, call, mix

FUNCTIONS = ['trajectory_parsers.read_lammps_trajectory', 'trajectory_parsers.read_VASP_XDATCAR',
             'trajectory_parsers.read_vasp_trajectory', 'iofile.get_trajectory_parser']
SUPS = [[1, 1, 1], [2, 1, 1], [1, 2, 3], [2, 2, 1]]


def cases(rng, tier):
    for rep in range(120 if tier == 'quick' else 2000):
        yield {'format': ['lammps', 'xdatcar', 'lammps_v', 'outcar'][rep % 4], 'cell': lib.CELLS[rep // 2 % 6],
               'memmap': rep // 4 % 3 == 1, 'window': ['all', 'from', 'to', 'both', 'one'][rep // 3 % 5],
               'template': rep // 8 % 2 == 1, 'last': rep % 7 == 3, 'auto': rep % 5 != 4, 'rep': rep}


def lammps_cell(cell):
    """The restricted triangular form of a right handed cell and the rotation from it to the given one."""
    a, b, c = cell
    la = np.linalg.norm(a)
    ah = a / la
    bx = b @ ah
    by = np.linalg.norm(np.cross(ah, b))
    cx = c @ ah
    cy = (b @ c - bx * cx) / by
    cz = np.sqrt(c @ c - cx ** 2 - cy ** 2)
    low = np.array([[la, 0, 0], [bx, by, 0], [cx, cy, cz]])
    return low, np.linalg.inv(low) @ cell


def write_lammps(name, low, rows, steps, label, lo, short):
    xy, xz, yz = low[1, 0], low[2, 0], low[2, 1]
    hi = lo + np.diag(low)
    b = [(lo[0] + min(0, xy, xz, xy + xz), hi[0] + max(0, xy, xz, xy + xz)), (lo[1] + min(0, yz), hi[1] + max(0, yz)),
         (lo[2], hi[2])]
    with open(name, 'w') as f:
        for s, r in zip(steps, rows):
            f.write('ITEM: TIMESTEP\n%d\nITEM: NUMBER OF ATOMS\n%d\n' % (s, len(r)))
            if short:
                f.write('ITEM: BOX BOUNDS pp pp pp\n' + ''.join('%.14e %.14e\n' % x for x in b))
            else:
                f.write('ITEM: BOX BOUNDS xy xz yz pp pp pp\n' + ''.join('%.14e %.14e %.14e\n' % (x + (t,)) for x, t in zip(b, (xy, xz, yz))))
            f.write('ITEM: ATOMS %s\n' % label + ''.join('%.12f %.12f %.12f \n' % tuple(x) for x in r))


def write_xdatcar(name, cell, rows, steps, el, factor):
    with open(name, 'w') as f:
        f.write('system\n  %.8f\n' % factor + ''.join(' %.14f %.14f %.14f\n' % tuple(x / factor) for x in cell))
        f.write(' '.join(el) + '\n' + ' '.join(['1'] * len(el)) + '\n')
        for s, r in zip(steps, rows):
            f.write('Direct configuration= %6d\n' % s + ''.join(' %.12f %.12f %.12f\n' % tuple(x) for x in r))


def write_outcar(name, cell, rows, energies, potim):
    with open(name, 'w') as f:
        f.write(' POMASS = 28.0\n   NIONS = %6d\n   POTIM  = %.4f    time-step for ionic-motion\n' % (len(rows[0]), potim))
        f.write('      direct lattice vectors                 reciprocal lattice vectors\n')
        f.write(''.join(' %.12f %.12f %.12f  0.1 0.0 0.0\n' % tuple(x) for x in cell))
        for r, e in zip(rows, energies):
            f.write(' POSITION                                       TOTAL-FORCE (eV/Angst)\n ' + '-' * 80 + '\n')
            f.write(''.join(' %.12f %.12f %.12f    0.1 -0.2 0.3\n' % tuple(x) for x in r) + ' ' + '-' * 80 + '\n')
            f.write('  energy  without entropy= %.8f  energy(sigma->0) = %.8f\n\n' % (e + 1, e))


def check(case):
    import dynaphopy.interface.iofile as io
    import dynaphopy.interface.iofile.trajectory_parsers as tp
    rng = mix(case)
    sup = SUPS[int(rng.integers(len(SUPS)))]
    st, data = lib.structure(rng, int(rng.integers(1, 4)), case['cell'])
    cell = np.diag(sup) @ data['cell']
    ref = lib.super_positions(data, sup)
    n = len(ref)
    N = int(rng.integers(2, 9))
    pos = ref + rng.uniform(-.3, .3, (N, n, 3))
    vel = rng.normal(size=(N, n, 3))
    order = rng.permutation(n) if case['template'] else np.arange(n)   # line i of the file is atom order[i]
    stride = int(rng.integers(1, 6))
    t0 = int(rng.integers(0, 3)) * stride
    dt = float(rng.choice([.001, .002, .0005]))
    fmt = case['format']
    steps = t0 + np.arange(N) * stride
    energy = rng.uniform(-9, -1, N)
    name = 'trajectory.dat'
    low, rot = lammps_cell(cell)
    if fmt.startswith('lammps'):
        inv = np.linalg.inv(rot)
        rows = ((pos if fmt == 'lammps' else vel) @ inv)[:, order]
        short = abs(low[1, 0]) + abs(low[2, 0]) + abs(low[2, 1]) < 1e-12
        write_lammps(name, low, rows, steps, 'x y z' if fmt == 'lammps' else 'vx vy vz', rng.choice([0., -1.5, 2.]) * np.ones(3), short)
        reader = tp.read_lammps_trajectory
    elif fmt == 'xdatcar':
        steps = 1 + np.arange(N) * stride
        write_xdatcar(name, cell, (pos @ np.linalg.inv(cell))[:, order], steps, ['Si'] * n, float(rng.choice([1., 1., 2.5])))
        reader = tp.read_VASP_XDATCAR
    else:
        write_outcar(name, cell, pos[:, order], energy, dt * 1000)
        steps = np.arange(N)
        reader = tp.read_vasp_trajectory
    if case['auto']:
        got = call(io.get_trajectory_parser, name)
        if got is not reader:
            fail('a %s file is taken for %s' % (fmt, getattr(got, '__name__', got)))
    a, b = 1, N
    kw = {}
    if case['window'] in ('from', 'both'):
        a = int(rng.integers(1, N + 1))
        kw['initial_cut'] = a
    if case['window'] in ('to', 'both'):
        b = int(rng.integers(a, N + 1))
        kw['end_cut'] = b
    if case['window'] == 'one':
        a = b = int(rng.integers(1, N + 1))
        kw.update(initial_cut=a, end_cut=b)
    memmap = case['memmap'] and fmt != 'outcar'
    if memmap and 'end_cut' not in kw:
        kw['end_cut'] = b + int(rng.integers(0, 3))
    sel = np.arange(a - 1, b)
    if case['last']:
        k = int(rng.integers(1, N + 2))
        kw['last_steps'] = k
        sel = sel[-k:]
    if case['template']:
        kw['template'] = order if rng.random() < .5 else np.array(order, dtype=float)
    if fmt != 'outcar':
        kw['time_step'] = dt
    dyn = call(reader, name, st, memmap=memmap, **kw)
    what = '%s %s' % (fmt, {k: v for k, v in kw.items() if k != 'template'})
    close(np.array(dyn.get_supercell(), float), cell, rtol=1e-9, atol=1e-9, what='cell of ' + what)
    time = np.array(dyn.get_time(), float)
    if fmt == 'outcar':
        equal(len(time), len(sel), 'number of times of ' + what)
        time = time - time[0]
        close(time, (steps[sel] - steps[sel[0]]) * dt, rtol=1e-9, what='times of ' + what)
        close(np.array(dyn.get_energy(), float), energy[sel], atol=1e-7, what='energies of ' + what)
    else:
        close(time, steps[sel] * dt, rtol=1e-9, what='times of ' + what)
    got = dyn.velocity if fmt == 'lammps_v' else call(lambda: dyn.trajectory)
    close(np.array(got), (vel if fmt == 'lammps_v' else pos)[sel] + 0j, rtol=0, atol=1e-9, what='steps of ' + what)
