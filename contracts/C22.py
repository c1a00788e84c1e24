"""Contracts of C22: POSCAR and LAMMPS structure files."""
from fractions import Fraction
from contracts.world import *
from contracts import textfile
from dpv.deductive import text as X, npfun

LEVEL = 'proof'
TECHNIQUE = 'contracts on the real Python source, symbolic execution with a model of printed text, term normal form and z3; bounded replay on the real code'
NOTE = 'any number of atoms in up to four consecutive blocks of elements, any cell, positions, masses and charges; a printed number stands for its value, and the format must keep nine digits'
GEN = 'dynaphopy.generate_cell.'
IO = 'dynaphopy.interface.iofile.'


class Crystal:
    """A structure whose atoms come in blocks of elements of any size; the unit cell and one supercell of it."""

    def __init__(self, I, names, charges=None):
        I.w = self
        self.names = names
        self.sup = I.mk(arr('sup', (3,), 'i', nn=True))
        self.parts = {}
        for tag in ('', 's'):
            sizes = [size('n%s%d' % (tag, k)) for k in range(len(names))]
            n = sum(sizes, T.ZERO)
            d = {'sizes': sizes, 'n': n, 'cell': I.mk(arr('cell' + tag, (3, 3))), 'x': I.mk(arr('x' + tag, (n, 3))), 'f': I.mk(arr('f' + tag, (n, 3))),
                 'elements': self.blocks(I, sizes), 'mass': self.by_element(I, sizes, 'mass'),
                 'q': seq(I, n, lambda i, tag=tag: T.app('q' + tag, [i])) if charges else None}
            d['starts'] = [sum(sizes[:k], T.ZERO) for k in range(len(names))]
            self.parts[tag] = d
            I.cuts[n.key] = d['starts']
        self.structure = I.new_obj(STRUCT, {'$open': True})

    def blocks(self, I, sizes):
        return ListRef(I.new(Seq(tuple(('seq', n, T.var_name(T.fresh('q')), name) for n, name in zip(sizes, self.names)))))

    def by_element(self, I, sizes, what):
        """A list with one value per element name."""
        return ListRef(I.new(Seq(tuple(('seq', n, T.var_name(T.fresh('q')), T.var('%s of %s' % (what, name))) for n, name in zip(sizes, self.names)))))

    def of(self, I, sup):
        """The quantities of the unit cell or of the supercell that is asked for."""
        if sup is None:
            return self.parts['']
        a, b = I.arr(sup), I.content(self.sup)
        if a.ndim == 1 and a.expr == b.expr:
            return self.parts['s']
        if a.expr == T.ONE:
            return self.parts['']
        raise Undecided('another supercell: %r' % (a,))


def facts(k):
    return [size('n%s%d' % (tag, j)) - 1 for tag in ('', 's') for j in range(k)]


def part(name):
    return lambda I, self, supercell=None: I.w.of(I, supercell)[name]


def pairs(I, x):
    """(value, first index) of the segments of a list made of blocks of equal values."""
    out = []
    for lo, hi, s in I.spans(I.seq_of(x).segs):
        if s[0] == 'items':
            out += [(v, lo + k) for k, v in enumerate(s[1])]
        elif T.entails(list(T.FACTS), s[1] - 1) and not isinstance(s[3], Poly) or isinstance(s[3], Poly) and s[3].const() is not None:
            out.append((s[3], lo))
        else:
            raise Undecided('blocks of a list')
    vals = [v if isinstance(v, str) else (I.num(v).const() if I.num(v) is not None else None) for v, at in out]
    if None in vals or len({isinstance(v, str) for v in vals}) > 1:
        raise Undecided('blocks of a list')
    return [(v, at) for v, (_, at) in zip(vals, out)]


def unique(I, x, return_index=False, **kw):
    """Sorted distinct values, with the first index of each."""
    if kw:
        raise Undecided('unique')
    first = {}
    for v, at in pairs(I, x):
        first.setdefault(v, at)
    keys = sorted(first)
    values = I.new_list(keys if isinstance(keys[0], str) else [P(k) for k in keys])
    return (values, I.new_list([first[k] for k in keys])) if return_index is True else values


def argsort(I, x, **kw):
    """Order of a few numbers that the preconditions decide."""
    v = [I.num(y) for y in I.items(x)]
    if kw or any(y is None for y in v):
        raise Undecided('argsort')
    rank = []
    for a in range(len(v)):
        r = 0
        for b in range(len(v)):
            if a != b:
                if T.entails(list(T.FACTS), v[a] - v[b] - 1):
                    r += 1
                elif not T.entails(list(T.FACTS), v[b] - v[a] - 1):
                    raise Undecided('argsort')
        rank.append(r)
    return I.mk(I.arr(tuple(P(rank.index(k)) for k in range(len(v)))))


def diff(I, x):
    v = [I.num(y) for y in I.items(x)]
    return I.mk(I.arr(tuple(b - a for a, b in zip(v, v[1:]))))


def cos(I, x):
    """The cosine of an angle given by its cosine."""
    v = I.num(x)
    if v is not None and len(v.m) == 1:
        (mono, c), = v.m.items()
        if c == 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].kind == 'fun' and mono[0][0].data[0] == 'acos':
            return mono[0][0].data[1][0]
    return npfun.TABLE['numpy.cos'](I, x)


def larger(I, *a):
    """max, one path per order of the numbers."""
    v = [I.num(x) for x in (a if len(a) > 1 else I.items(a[0]))]
    if any(x is None for x in v):
        raise Undecided('max')
    r = v[0]
    for x in v[1:]:
        if not I.truth(mkbool(T.ge(r, x))):
            r = x
    return r


def inverse(I, x):
    """The inverse of the lattice: inv[i, j]."""
    a = I.arr(x)
    for tag, d in I.w.parts.items():
        c = I.content(d['cell'])
        if a.ndim == 2 and [y.key for y in a.shape] == ['3*1', '3*1'] or a.ndim == 2 and all(y.const() == 3 for y in a.shape):
            if all(a.at(P(i), P(j)) == c.at(P(i), P(j)) for i in range(3) for j in range(3)):
                return I.mk(arr('inv' + tag, (3, 3)))
    raise Undecided('inverse of another matrix')


def made(I, self, *a, **kw):
    """The structure that a reader makes: what it was given."""
    names = ['positions', 'scaled_positions', 'masses', 'charges', 'cell', 'force_sets', 'force_constants', 'atomic_numbers', 'atomic_elements', 'atom_type_index', 'primitive_matrix']
    d = dict(zip(names, a))
    d.update(kw)
    I.heap[self.cid] = {'$made': True, **{k: d.get(k) for k in names}}


CONTRACTS = dict(textfile.CONTRACTS, **{
    STRUCT + '.get_cell': part('cell'), STRUCT + '.get_positions': part('x'), STRUCT + '.get_scaled_positions': part('f'),
    STRUCT + '.get_masses': part('mass'), STRUCT + '.get_charges': part('q'), STRUCT + '.get_number_of_dimensions': const(P(3)),
    STRUCT + '.get_atomic_elements': part('elements'), STRUCT + '.get_number_of_atoms': lambda I, self: I.w.parts['']['n'],
    STRUCT + '.__init__': made, 'numpy.unique': unique, 'numpy.argsort': argsort, 'numpy.diff': diff, 'numpy.cos': cos, 'builtins.max': larger,
    'numpy.linalg.inv': inverse})

ORDERS = [('Si',), ('Si', 'O'), ('O', 'Si', 'O'), ('Mg', 'Al', 'O', 'Al')]


def same_crystal(ob, I, o, d, scaled, cell, positions):
    """The structure that was read is the crystal d."""
    s = o.value
    ok = isinstance(s, Obj) and I.heap[s.cid].get('$made') is True
    ob('a structure is made', P(1 if ok else 0), P(1))
    if not ok:
        return
    g = I.heap[s.cid]
    ob('cell', g['cell'], cell)
    ob('kind of positions', P(1 if (g['positions'] is None) == scaled and (g['scaled_positions'] is None) == (not scaled) else 0), P(1))
    ob('positions', g['scaled_positions' if scaled else 'positions'], positions)
    got = [(x[3], x[1]) if x[0] == 'seq' else (y, T.ONE) for x in I.seq_of(g['atomic_elements']).segs for y in ([None] if x[0] == 'seq' else x[1])]
    want = list(zip(I.w.names, d['sizes']))
    ob('elements', P(1 if len(got) == len(want) and all(a[0] == b[0] and (a[1] - b[1]) == T.ZERO for a, b in zip(got, want)) else 0), P(1))
    rest = [k for k, v in g.items() if v is not None and k not in ('$made', 'cell', 'positions', 'scaled_positions', 'atomic_elements')]
    ob('nothing else is set (%s)' % ', '.join(rest), P(len(rest)), P(0))


def obligations(E):
    # ---------------------------------------------------------------- POSCAR: write, then read
    for names in ORDERS:
        for scaled in (False, True):
            for tag in ('', 's'):
                if len(names) == 4 and (scaled or tag):
                    continue

                def setup(I):
                    w = Crystal(I, names)
                    w.tag = tag
                    return [w.structure], dict({'scaled': True} if scaled else {}, **({'supercell': w.sup} if tag else {}))

                def written(ob, I, o):
                    t = o.value
                    ob('a text', P(1 if isinstance(t, X.Text) else 0), P(1))
                    if not isinstance(t, X.Text):
                        return
                    f = X.formats(t)
                    ob('digits of the printed numbers: %s' % ', '.join(sorted(set(f))), P(1 if f and all(X.precise(x, 9) for x in f) else 0), P(1))
                E.function('generate_VASP_structure, %s%s%s' % ('-'.join(names), ', direct' if scaled else '', ', supercell' if tag else ''), GEN + 'generate_VASP_structure',
                           setup, written, facts=facts(len(names)), contracts=CONTRACTS)

                def setup(I):
                    w = Crystal(I, names)
                    w.tag = tag
                    kw = dict({'scaled': True} if scaled else {}, **({'supercell': w.sup} if tag else {}))
                    t = I.inline(I.function(GEN + 'generate_VASP_structure'), [w.structure], kw)
                    textfile.disk(I, {'POSCAR': t})
                    return ['POSCAR'], {}

                def check(ob, I, o):
                    d = I.w.parts[tag]
                    same_crystal(ob, I, o, d, scaled, d['cell'], d['f' if scaled else 'x'])
                E.function('POSCAR written and read, %s%s%s' % ('-'.join(names), ', direct' if scaled else '', ', supercell' if tag else ''), IO + 'read_from_file_structure_poscar',
                           setup, check, facts=facts(len(names)), contracts=CONTRACTS)

    # ---------------------------------------------------------------- any POSCAR is read as the crystal it describes
    for names in ORDERS[:3]:
        for old, mode, volume in [(o, m, v) for o in (False, True) for m in ('Direct', 'direct', 'Cartesian', 'cartesian', 'K') for v in (False, True)]:
                scaled = mode[0] in 'Dd'

                def setup(I):
                    w = Crystal(I, names)
                    d = w.parts['']
                    scale = T.var('scale')
                    c, x = I.content(d['cell']), I.content(d['f' if scaled else 'x'])
                    q = T.fresh('q')
                    row = lambda a, i, f: [p for k in range(3) for p in (('n', a.at(i, k), f), ('s', ' ' if k < 2 else '\n'))]
                    parts = [('s', ' '.join(names) if old else 'comment: 3 atoms'), ('s', '\n  '), ('n', scale, '.10f'), ('s', '\n')]
                    for k in range(3):
                        parts += [('s', '  ')] + row(c, P(k), '.12f')
                    if not old:
                        parts += [('s', '   '.join(names) + '\n')]
                    for n in d['sizes']:
                        parts += [('s', '  '), ('n', n, '')]
                    parts += [('s', '\n' + mode + '\n'), ('rep', d['n'], T.var_name(q), X.Text(row(x, q, '.15f')))]
                    textfile.disk(I, {'a.vasp': X.Text(parts)})
                    return ['a.vasp'], {}

                def check(ob, I, o):
                    d = I.w.parts['']
                    scale = T.var('scale')
                    x = I.content(d['f' if scaled else 'x'])
                    if volume:
                        # a negative number is the volume of the cell
                        a = [[T.app('cell', [P(i), P(j)]) for j in range(3)] for i in range(3)]
                        det = sum((a[0][i] * (a[1][(i + 1) % 3] * a[2][(i + 2) % 3] - a[1][(i + 2) % 3] * a[2][(i + 1) % 3]) for i in range(3)), P(0))
                        scale = T.power(-scale / T.absolute(det), Fraction(1, 3))
                    same_crystal(ob, I, o, d, scaled, arr_of((3, 3), lambda i, j: scale * T.app('cell', [i, j])),
                                 x if scaled else Arr(x.shape, scale * x.expr))
                E.function('%s POSCAR, %s, %s%s' % ('old' if old else 'new', mode, '-'.join(names), ', volume' if volume else ''), IO + 'read_from_file_structure_poscar', setup, check,
                           facts=facts(len(names)) + [-T.var('scale') - Fraction(1, 10 ** 9) if volume else T.var('scale')], contracts=CONTRACTS)

    # ---------------------------------------------------------------- LAMMPS
    # the box (one path per order of its tilts), then the rest with an unknown box
    for names, charges, tag, box in [(('Si',), False, '', True), (('Si',), True, 's', False), (('Si', 'O'), True, '', False), (('Si', 'O'), False, 's', True), (('Si', 'O'), False, 's', False),
                                     (('O', 'Si'), False, '', False), (('O', 'Si'), True, 's', False), (('Mg', 'Al', 'O'), False, '', False), (('Mg', 'Al', 'O'), True, 's', False)]:
        def setup(I):
            w = Crystal(I, names, charges)
            return [w.structure], {'supercell': w.sup} if tag else {}

        def check(ob, I, o):
            lammps(ob, I, o, I.w.parts[tag], names, charges, tag, box)
        E.function('generate_LAMMPS_structure, %s%s%s%s' % ('-'.join(names), ', charges' if charges else '', ', supercell' if tag else '', ', box' if box else ''),
                   GEN + 'generate_LAMMPS_structure', setup, check, facts=facts(len(names)),
                   contracts=CONTRACTS if box else dict(CONTRACTS, **{'builtins.max': lambda I, *a: T.fun('largest', *[I.num(x) for x in (a if len(a) > 1 else I.items(a[0]))])}))
    E.trust('text: str.format, %, join, split and float as documented; a printed number is the number (its format keeps nine digits after the point)',
            'numpy.unique gives the sorted distinct values with their first index')


def lammps(ob, I, o, d, names, charges, tag, whole):
    t = o.value
    ob('a text', P(1 if isinstance(t, X.Text) else 0), P(1))
    if not isinstance(t, X.Text):
        return
    f = X.formats(t)
    rows = []                 # (first atom, number of them or None, words)
    for lo, hi, s in I.spans(I.seq_of(X.lines(I, t)).segs):
        if s[0] == 'items':
            rows += [(None, None, I.items(X.words(I, l))) for l in s[1]]
        else:
            rows.append((s[1], s[2], I.items(X.words(I, s[3]))))
    num = lambda w: X.number(I, w)
    box, tilt, n, types = {}, None, None, None
    section, mass, atoms = None, [], []
    for k, v, w in rows[1:]:
        if not w:
            continue
        if section == 'Atoms':
            atoms.append((k, v, [num(x) for x in w]))
        elif w == ['Masses'] or w == ['Atoms']:
            section = w[0]
        elif section == 'Masses':
            mass.append([num(x) for x in w])
        elif w[-1] == 'atoms':
            n = num(w[0])
        elif w[1:] == ['atom', 'types']:
            types = num(w[0])
        elif w[2:] in (['xlo', 'xhi'], ['ylo', 'yhi'], ['zlo', 'zhi']):
            box[w[2][0]] = num(w[1]) - num(w[0])
        elif w[3:] == ['xy', 'xz', 'yz']:
            tilt = [num(x) for x in w[:3]]
        else:
            ob('line %r' % (w,), P(0), P(1))
    ob('sections', P(1 if set(box) == set('xyz') and n is not None and types is not None and section == 'Atoms' else 0), P(1))
    ob('number of atoms', n, d['n'])
    ob('number of types', types, P(len(names)))
    ob('one mass per type', P(len(mass)), P(len(names)))
    for k, w in enumerate(mass):
        ob('mass line %d' % (k + 1), tuple(w), (P(k + 1), T.var('mass of %s' % names[k])))
    # the box: rows of a lower triangular matrix
    xy, xz, yz = tilt or [T.ZERO] * 3
    L = [[box['x'], T.ZERO, T.ZERO], [xy, box['y'], T.ZERO], [xz, yz, box['z']]]
    cell = I.content(d['cell'])
    C = [[cell.at(P(i), P(j)) for j in range(3)] for i in range(3)]
    dot = lambda a, b: sum((x * y for x, y in zip(a, b)), T.ZERO)
    if whole:
        for i in range(3):
            for j in range(i + 1):
                ob('product of lattice vectors %d and %d' % (i, j), dot(L[i], L[j]), dot(C[i], C[j]))
        return
    # atoms
    at, M = T.ZERO, None
    for k, v, w in atoms:
        i = at if k is None else at + T.var(v, 'i', nn=True)
        w = [T.subst(y, {}) for y in w]
        q = [w.pop(2)] if charges else []
        ob('columns of an atom line', P(len(w)), P(5))
        ob('number of the atom', w[0], i + 1)
        b = [j for j, s in enumerate(d['starts']) if T.entails(list(T.FACTS), at - s)][-1]
        if k is not None and not T.entails(list(T.FACTS), d['starts'][b] + d['sizes'][b] - at - k):
            raise Undecided('a line for atoms of several elements')
        ob('type of the atom', w[1], P(b + 1))
        if charges:
            ob('charge of the atom', q[0], T.app('q' + tag, [i]))
        M = oriented(ob, i, w[2:], C, tag, M)
        at = at + (T.ONE if k is None else k)
    ob('all atoms', at, d['n'])
    ob('digits of the printed numbers: %s' % ', '.join(sorted(set(f))), P(1 if f and all(X.precise(y, 9) for y in f) else 0), P(1))


def oriented(ob, i, w, C, tag, M):
    """The printed position of atom i is (x inverse(cell)) M with M Mt = C Ct, so that interatomic vectors keep their lengths and
    angles; M is lower triangular like the box.  M: the matrix of the atoms before."""
    x = lambda l: T.app('x' + tag, [i, P(l)])
    inv = lambda l, j: T.app('inv' + tag, [P(l), P(j)])
    w = [T.replace_app(y, 'f' + tag, lambda a, b: sum((T.app('x' + tag, [a, P(l)]) * T.app('inv' + tag, [P(l), b]) for l in range(3)), T.ZERO)) for y in w]

    def part(y, l, j):
        y = T.replace_app(y, 'x' + tag, lambda a, b: T.eq(b, P(l)))
        return T.replace_app(y, 'inv' + tag, lambda a, b: T.eq(a, P(l)) * T.eq(b, P(j)))
    first = M is None
    if first:
        M = [[part(w[k], 0, j) for k in range(3)] for j in range(3)]
    for k in range(3):
        ob('coordinate %d of the atom is a rotated one' % k, w[k], sum((x(l) * inv(l, j) * M[j][k] for l in range(3) for j in range(3)), T.ZERO))
        for j in range(k if first else 0):
            ob('orientation %d%d' % (j, k), M[j][k], T.ZERO)
    if first:
        dot = lambda a, b: sum((x * y for x, y in zip(a, b)), T.ZERO)
        for a in range(3):
            for b in range(a + 1):
                ob('product of rotated lattice vectors %d and %d' % (a, b), dot(M[a], M[b]), dot(C[a], C[b]))
            ob('length %d along its axis is not negative' % a, P(1 if root(M[a][a]) else 0), P(1))
    return M


def root(p):
    """A product of square roots."""
    return T.nonneg(p) or len(p.m) == 1 and all(c > 0 and all(a.kind == 'pow' and (e * 2).denominator == 1 or a.nn for a, e in mono) for mono, c in p.m.items())
