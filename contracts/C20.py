"""Contracts of C20: the trajectory readers."""
from contracts.world import *
from contracts import mapped, textfile
from dpv.deductive import text as X, npfun

LEVEL = 'exploration'
TECHNIQUE = 'contracts on the real Python source, symbolic execution with a model of texts and mapped files, term normal form and z3, for any number of atoms and any values; bounded in the number of steps of the file'
NOTE = 'Bounded: files of up to three steps (any atoms, positions, cell, times), each window of them; longer files by the bounded replay'
TP = 'dynaphopy.interface.iofile.trajectory_parsers.'
IO = 'dynaphopy.interface.iofile.'
n = size('natoms')
STEPS = 3


def row(I, name, s, q):
    return [p for k in range(3) for p in (('n', T.app(name, [P(s), q, P(k)]), '.8f'), ('s', ' ' if k < 2 else '\n'))]


def block(I, name, s, tail='', count=n):
    q = T.fresh('q')
    r = row(I, name, s, q)
    if tail:
        r = r[:-1] + [('s', tail + '\n')]
    return ('rep', count, T.var_name(q), X.Text(r))


def num(v, f='.8f'):
    return ('n', v, f)


def step(s):
    return T.app('step', [P(s)], 'i', nn=True)


def xdatcar(I):
    p = [('s', 'system 1\n  '), num(T.var('scale')), ('s', '\n')]
    for k in range(3):
        for j in range(3):
            p += [('s', '  '), num(T.app('cell', [P(k), P(j)]))]
        p += [('s', '\n')]
    p += [('s', '  Si  O\n  '), ('n', size('n1'), ''), ('s', '  '), ('n', size('n2'), ''), ('s', '\n')]
    for s in range(STEPS):
        p += [('s', 'Direct configuration=   '), ('n', step(s), ''), ('s', '\n'), block(I, 'x', s, count=size('n1') + size('n2'))]
    return X.Text(p)


def outcar(I):
    p = [('s', ' POMASS = 28.0\n   NIONS =   '), ('n', n, ''), ('s', '\n   POTIM  =   '), num(T.var('potim')), ('s', '    time-step for ionic-motion\n some text\n      direct lattice vectors           reciprocal lattice vectors\n')]
    for k in range(3):
        for j in range(3):
            p += [('s', '  '), num(T.app('cell', [P(k), P(j)]))]
        p += [('s', '  0.100 0.000 0.000\n')]
    for s in range(STEPS):
        p += [('s', ' POSITION                                       TOTAL-FORCE (eV/Angst)\n -----------\n'), block(I, 'x', s, '    0.001  0.002  0.003'),
              ('s', ' ----------\n  energy  without entropy=   0.5  energy(sigma->0) =   '), num(T.app('energy', [P(s)])), ('s', '\n')]
    return X.Text(p)


def bounds(short):
    """Bounds of the box as LAMMPS writes them."""
    t = [P(0)] * 3 if short else [T.var('xy'), T.var('xz'), T.var('yz')]
    lo, hi = [T.app('lo', [P(k)]) for k in range(3)], [T.app('hi', [P(k)]) for k in range(3)]
    if short:
        return t, lo, hi, lo, hi
    z = P(0)
    x, y = [z, t[0], t[1], t[0] + t[1]], [z, t[2]]
    return t, lo, hi, [lo[0] + least(*x), lo[1] + least(*y), lo[2]], [hi[0] + most(*x), hi[1] + most(*y), hi[2]]


def order(v):
    return sorted({x.key: x for x in v}.values(), key=lambda x: x.key)


def least(*v):
    v = order(v)
    return v[0] if len(v) == 1 else T.fun('least', *v)


def most(*v):
    v = order(v)
    return v[0] if len(v) == 1 else T.fun('most', *v)


def extreme(f, name):
    def g(I, x, *a, **kw):
        if a or kw:
            raise Undecided(name)
        if isinstance(x, Ref) and I.content(x).ndim != 1:
            raise Undecided(name)
        v = [I.num(y) for y in I.items(x)]
        if any(y is None for y in v):
            raise Undecided(name)
        return f(*v)
    return g


def dump(I, label, short):
    t, lo, hi, a, b = bounds(short)
    p = []
    for s in range(STEPS):
        p += [('s', 'ITEM: TIMESTEP\n'), ('n', step(s), ''), ('s', '\nITEM: NUMBER OF ATOMS\n'), ('n', n, ''),
              ('s', '\nITEM: BOX BOUNDS %spp pp pp\n' % ('' if short else 'xy xz yz '))]
        for k in range(3):
            p += [num(a[k], '.12e'), ('s', ' '), num(b[k], '.12e')] + ([] if short else [('s', ' '), num(t[k], '.12e')]) + [('s', '\n')]
        p += [('s', 'ITEM: ATOMS %s\n' % label), block(I, 'x', s)]
    return X.Text(p)


def inverse(I, x):
    """Inverse of the unit vectors of the cell."""
    a = I.arr(x)
    c = lambda i, j: T.app('cell', [P(i), P(j)])
    for i in range(3):
        for j in range(3):
            if a.at(P(i), P(j)) != c(i, j) / T.sqrt(c(i, 0) ** 2 + c(i, 1) ** 2 + c(i, 2) ** 2):
                raise Undecided('inverse of another matrix')
    return I.mk(arr('inv', (3, 3)))


def made(I, self, *a, **kw):
    names = ['structure', 'trajectory', 'scaled_trajectory', 'velocity', 'energy', 'time', 'supercell', 'memmap']
    d = dict(zip(names, a))
    d.update(kw)
    I.heap[self.cid] = {'$made': True, **{k: d.get(k) for k in names + [k for k in d if k not in names]}}


def environ(I, *a):
    raise PyExc('KeyError')


CONTRACTS = dict(mapped.CONTRACTS, **{
    DYN + '.__init__': made, STRUCT + '.get_cell': lambda I, self, **kw: I.w_cell, STRUCT + '.get_number_of_dimensions': const(P(3)),
    STRUCT + '.get_number_of_cell_atoms': const(size('cell atoms')), STRUCT + '.get_number_of_atoms': const(size('cell atoms')),
    'numpy.min': extreme(least, 'min'), 'numpy.max': extreme(most, 'max'), 'numpy.linalg.inv': inverse, 'os.getpid': const(P(7))})


def windows():
    for first in (1, 2, 3):
        for last in (None, 1, 2, 3, 9):
            if last is None or last >= first:
                yield first, last, None
    for k in (1, 2, 5):
        yield 1, None, k
    yield 2, None, 1
    yield 1, 2, 1


def obligations(E):
    for kind in ('XDATCAR', 'OUTCAR', 'LAMMPS positions', 'LAMMPS velocities', 'LAMMPS positions, no tilt'):
        for first, last, keep in windows():
            for memmap, template in ((False, False), (False, True), (True, False)):
                if memmap and (kind == 'OUTCAR' or last is None) or template and (first, last, keep) not in ((1, None, None), (2, 3, None), (2, None, 1)):
                    continue
                steps = list(range(STEPS))[first - 1:last]
                if keep is not None:
                    steps = steps[-keep:]
                lammps = kind.startswith('LAMMPS')
                atoms = size('n1') + size('n2') if kind == 'XDATCAR' else n

                def setup(I):
                    I.w_cell = I.mk(arr('cell', (3, 3)))
                    I.w_structure = I.new_obj(STRUCT, {'$open': True})
                    velocity = kind == 'LAMMPS velocities'
                    t = xdatcar(I) if kind == 'XDATCAR' else outcar(I) if kind == 'OUTCAR' else dump(I, 'vx vy vz' if velocity else 'x y z', 'no tilt' in kind)
                    textfile.disk(I, {'traj': t})
                    kw = {'structure': I.w_structure}
                    if kind != 'OUTCAR':
                        kw['time_step'] = T.var('dt')
                    if first != 1:
                        kw['initial_cut'] = P(first)
                    if last is not None:
                        kw['end_cut'] = P(last)
                    if keep is not None:
                        kw['last_steps'] = P(keep)
                    if memmap:
                        kw['memmap'] = True
                    if template:
                        I.w_template = kw['template'] = I.mk(arr('template', (atoms,), 'i', nn=True))
                    return ['traj'], kw

                def check(ob, I, o):
                    s = o.value
                    ok = isinstance(s, Obj) and I.heap[s.cid].get('$made') is True
                    ob('a trajectory is made', P(1 if ok else 0), P(1))
                    if not ok:
                        return
                    g = I.heap[s.cid]
                    cell = lambda i, j: T.app('cell', [P(i), P(j)])
                    what = {'XDATCAR': 'scaled_trajectory', 'LAMMPS velocities': 'velocity'}.get(kind, 'trajectory')
                    atom = D(1)
                    if template:
                        atom = I.content(npfun.TABLE['numpy.argsort'](I, I.w_template)).at(D(1))
                    raw = lambda k: sum((T.eq(D(0), a) * T.app('x', [P(b), atom, P(k)]) for a, b in enumerate(steps)), P(0))
                    if lammps:
                        t, lo, hi, _, _ = bounds('no tilt' in kind)
                        low = [[hi[0] - lo[0], P(0), P(0)], [t[0], hi[1] - lo[1], P(0)], [t[1], t[2], hi[2] - lo[2]]]
                        unit = [[low[i][j] / T.sqrt(low[i][0] ** 2 + low[i][1] ** 2 + low[i][2] ** 2) for j in range(3)] for i in range(3)]
                        # unit vectors of the cell times turn = unit vectors of the box; the way back is its transpose
                        turn = [[sum((T.app('inv', [P(i), P(k)]) * unit[k][j] for k in range(3)), P(0)) for j in range(3)] for i in range(3)]
                        back = [[turn[j][i] for j in range(3)] for i in range(3)]
                        turned = [[sum((low[i][k] * back[k][j] for k in range(3)), P(0)) for j in range(3)] for i in range(3)]
                        box = lambda i, j: sum((T.eq(i, a) * T.eq(j, b) * turned[a][b] for a in range(3) for b in range(3)), P(0))
                        value = lambda j: sum((raw(k) * back[k][j] for k in range(3)), P(0))
                    elif kind == 'XDATCAR':
                        box, value = lambda i, j: T.var('scale') * cell(i, j), raw
                    else:
                        box, value = cell, raw
                    expected = sum((T.eq(D(2), k) * value(k) for k in range(3)), P(0))
                    ob('the steps %s of the file, every atom in its place' % steps, I.content(g[what]), Arr((P(len(steps)), atoms, P(3)), expected, 'c'))
                    ob('cell of the file', I.content(g['supercell']), arr_of((3, 3), box))
                    if kind == 'OUTCAR':
                        ob('energies', I.content(g['energy']), arr_of((len(steps),), lambda i: T.app('energy', [i])) if steps == list(range(STEPS)) else
                           Arr((P(len(steps)),), sum((T.eq(D(0), a) * T.app('energy', [P(b)]) for a, b in enumerate(steps)), P(0))))
                        time = D(0) * T.var('potim') / 1000
                    else:
                        time = sum((T.eq(D(0), a) * step(b) for a, b in enumerate(steps)), P(0)) * T.var('dt')
                    ob('times', I.content(g['time']), Arr((P(len(steps)),), time))
                    ob('structure', P(1 if g['structure'] == I.w_structure else 0), P(1))
                    ob('memory mapped', P(1 if g['memmap'] is memmap else 0), P(1))
                    rest = [k for k, v in g.items() if v is not None and k not in ('$made', what, 'time', 'supercell', 'structure', 'memmap', 'energy')]
                    ob('nothing else is given', P(1 if not rest else 0), P(1))
                reader = {'XDATCAR': 'read_VASP_XDATCAR', 'OUTCAR': 'read_vasp_trajectory'}.get(kind, 'read_lammps_trajectory')
                f = [n - 1, size('n1') - 1, size('n2') - 1, size('cell atoms') - 1]
                E.function('%s, steps %d-%s%s%s%s' % (kind, first, '' if last is None else last, '' if keep is None else ', last %d' % keep, ', memory mapped' if memmap else '', ', template' if template else ''),
                           TP + reader, setup, check, facts=f, contracts=CONTRACTS)
    # ---------------------------------------------------------------- which reader
    for kind, reader in (('XDATCAR', 'read_VASP_XDATCAR'), ('OUTCAR', 'read_vasp_trajectory'), ('LAMMPS positions', 'read_lammps_trajectory'), ('LAMMPS velocities', 'read_lammps_trajectory'),
                         ('LAMMPS positions, no tilt', 'read_lammps_trajectory'), ('none', None)):
        def setup(I):
            t = X.Text([('s', 'some text\n'), num(T.var('v')), ('s', '\n')]) if reader is None else \
                xdatcar(I) if kind == 'XDATCAR' else outcar(I) if kind == 'OUTCAR' else dump(I, 'vx vy vz' if 'velocities' in kind else 'x y z', 'no tilt' in kind)
            textfile.disk(I, {'traj': t})
            return ['traj'], {}

        def check(ob, I, o):
            same = o.value is None if reader is None else I.vkey(o.value) == I.vkey(I.function(TP + reader))
            ob('the reader of this kind of file', P(1 if same else 0), P(1))
        E.function('get_trajectory_parser, %s' % kind, IO + 'get_trajectory_parser', setup, check, facts=[n - 1, size('n1') - 1, size('n2') - 1], contracts=CONTRACTS)
    E.trust('the key words of a trajectory file are within its first million bytes', 'DYNAPHOPY_TEMPDIR is not set', 'mmap: find from the cursor, seek and readline as documented; characters of bytes and str not told apart',
            'a printed number has no letters of the key words',
            'numpy.linalg.inv of the unit vectors of the cell is an opaque inverse')
