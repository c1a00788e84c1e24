"""Contracts of C11: atom types are the classes of atoms equivalent by primitive translation."""
from contracts.world import *
from dpv.deductive import smt
from dpv.deductive.invariant import supplied, same
from dpv.deductive.npfun import inv_arr

LEVEL = 'proof'
TECHNIQUE = 'contracts on the real Python source, symbolic execution with supplied inductive invariants for the nested loops over atoms, z3 and term normal form; bounded replay on the real code'
NOTE = 'get_atom_type_index proved for any number of atoms and dimensions, for crystals where equivalence within the tolerance is an equivalence relation'

FIRST = lambda k: T.app('first', [P(k)], 'i', nn=True)       # first atom of the class of k
RANK = lambda k: T.app('rank', [P(k)], 'i', nn=True)         # number of classes that begin before atom k
GEO = lambda k: T.app('lattice', [P(k)], 'i', nn=True)       # class of the positions alone
MASS = lambda k: T.app('mass0', [P(k)], nn=True)
NONE = T.var('None', 'i')


def separation(I, i, j):
    """Squared distance of atoms i and j after the nearest primitive lattice translation."""
    prim = I.content(I.w.prim)
    inv = inv_arr(prim)
    x = lambda n, k: T.app('x0', [P(n), P(k)])
    a, b, c = T.fresh('a'), T.fresh('b'), T.fresh('c')
    shift = lambda p: T.rnd(T.sum_range(b, 0, Dm, inv.at(b, p) * (x(j, b) - x(i, b))))
    r = x(j, a) - T.sum_range(c, 0, Dm, prim.at(c, a) * shift(c)) - x(i, a)
    return T.sum_range(a, 0, Dm, r * r)


def geometry(I, c):
    """The conditions of the code that say: equivalent by a primitive translation (within 0.001)."""
    def f(at):
        if at.kind != 'iv' or 'x0' not in at.key:
            return None
        idx = []

        def g(b):
            if b.kind == 'app' and b.data[0] == 'x0' and b.data[1][0] not in idx:
                idx.append(b.data[1][0])
            return None
        T.deep(P(at), g)
        for i in idx:
            for j in idx:
                if i != j:
                    want = T.lt(separation(I, i, j), T.F(1, 1000))
                    if T.equal(P(at), want, (), last=False)[0] == 'equal':
                        return T.bracket_eq(GEO(i) - GEO(j))
                    if T.equal(P(at), T.neg(want), (), last=False)[0] == 'equal':
                        return T.neg(T.bracket_eq(GEO(i) - GEO(j)))
        for i in idx:
            for j in idx:
                if i != j and different(I, P(at), T.lt(separation(I, i, j), T.F(1, 1000))):
                    raise PyExc('AssertionError', 'equivalence is not decided by the squared distance to the nearest translation being below 0.001')
        return None
    return T.deep(c, f)


class Close(T.Valuation):
    """Atoms whose distance is near the tolerance."""

    def app(self, a, args):
        v = T.Valuation.app(self, a, args)
        return v * 0.05 if a.data[0] == 'x0' else v


def different(I, a, b):
    """The two conditions (or one and the negation of the other) differ at sample positions."""
    seen = set()
    for k in range(60):
        v = Close('close/%d' % k, {'Dm': 1 + k % 3})
        try:
            x, y = T.evaluate(a, v), T.evaluate(b, v)
        except (T.EvalError, OverflowError, ZeroDivisionError):
            continue
        seen.add(bool(abs(x - y) < 1e-9))
    return len(seen) == 2


def lemmas(ks, ranks=()):
    """Consequences of the definitions and of the equivalence, for the given atoms."""
    out = []
    for k in ks:
        out += [P(k) - FIRST(k), T.bracket_eq(FIRST(FIRST(k)) - FIRST(k)) - 1]
        for m in ks:
            if k != m:
                both = T.bracket_eq(GEO(k) - GEO(m)) * T.bracket_eq(MASS(k) - MASS(m))
                eq = T.bracket_eq(FIRST(k) - FIRST(m))
                out += [both - eq, eq - both]
                # k is the first of the class of m when first(m) is k
                out += [eq - T.bracket_eq(FIRST(m) - k), eq - T.bracket_eq(FIRST(k) - m)]
    for k in ranks:
        d = RANK(k + 1) - RANK(k) - T.bracket_eq(FIRST(k) - k)
        out += [d, -d]
    return out + [RANK(0), -RANK(0)]


def full(k, i):
    """Entry of atom k when the first i atoms have been treated."""
    known = T.bracket_ge(P(i) - 1 - FIRST(k))
    return known * RANK(FIRST(k)) + (1 - known) * NONE


class Types:
    def __init__(self, name, at, atoms):
        self.name, self.at, self.atoms = name, at, atoms

    def after(self, i):
        return self.at(i + 1)

    def initial(self, I, v):
        return self.agrees(I, v, self.at(P(0)), ())

    def holds(self, I, v, i):
        return self.agrees(I, v, self.at(i + 1), self.atoms(i))

    def agrees(self, I, v, want, atoms):
        facts = []
        if isinstance(want, tuple):
            if not isinstance(v, Arr) or v.ndim != 1:
                return False
            lo, hi, f = want
            k = T.fresh('k')
            got, want = v.at(k), f(k)
            facts = [k - lo, hi - k]
            atoms = tuple(atoms) + (k,)
        elif not isinstance(v, Poly):
            return False
        else:
            got = v
        d = T.resolve(P(got) - want)
        if not d.m:
            return True
        return smt.prove(list(T.FACTS) + facts + lemmas(atoms, [a for a in atoms[:1]]), tuple(I.path), T.bracket_eq(d))[0] is True


def nested(I, n):
    """Handlers of the loops over the atoms and over the later atoms."""
    n = P(n)
    if n == U:
        table = lambda i: (P(0), U - 1, lambda k: full(k, i))

        def templates(v):
            return [Types('types of the atoms treated', table, lambda i: (i,)), Types('number of classes', lambda i: RANK(i), lambda i: (i,))]
        return supplied(I, n, templates)
    i = U - 1 - n
    if i.const() is None and len(i.m) == 1 and n != U:
        def table(t):
            return (P(0), U - 1, lambda k: T.ite(T.bracket_ge(i + P(t) - k), full(k, i + 1), full(k, i)))

        def templates(v):
            return [Types('types after comparing with atom i', table, lambda t: (i, i + 1 + t))]
        return supplied(I, n, templates)
    return None


def obligations(E):
    c = structure_contracts()
    del c[STRUCT + '.get_atom_type_index']

    def structure(I, **fields):
        w = World(I)
        w.self = I.construct(STRUCT, I.class_info(STRUCT), [], {'masses': w.mass0, 'cell': w.cell, 'atomic_elements': Opaque('some:elements'),
                                                                'atomic_numbers': I.mk(arr('z', (U,), 'i'))})
        for k, v in fields.items():
            if k not in I.heap[w.self.cid]:
                raise Undecided('Structure has no field ' + k)
            I.set_field(w.self, k, v)
        return w

    def types(I, ob, name, value):
        a = I.arr(value)
        k = T.fresh('k')
        saved = list(T.FACTS)
        ob(name + ': one entry per atom', a.shape[0], U)
        T.FACTS.extend([k, U - 1 - k] + lemmas((k,)))
        ob(name + ': the number of classes that begin before the own one of the atom', a.at(k), RANK(FIRST(k)))
        T.FACTS[:] = saved

    def request(I, name, *args):
        I.loop_invariants = [nested]
        I.rewrite_condition = geometry
        return I.call(I.getattr(I.w.self, name), list(args), {})

    # ---- whatever was requested or set before
    other = lambda I: I.mk(arr('othersup', (Dm,), 'i', nn=True))
    histories = {'': [], ', after a request for a supercell': [('get_atom_type_index', lambda I: [other(I)])],
                 ', after an earlier request': [('get_atom_type_index', lambda I: [])]}
    for text, hist in histories.items():
        def setup(I, hist=hist):
            w = structure(I)

            def before():
                for name, args in hist:
                    request(I, name, *args(I))
            I.before = before
            I.loop_invariants = [nested]
            I.rewrite_condition = geometry
            return [w.self], {}

        def check(ob, I, o):
            types(I, ob, 'types', o.value)
        E.function('get_atom_type_index' + text, STRUCT + '.get_atom_type_index', setup, check, contracts=c, facts=SIZES)

    # ---- primitive cell
    def primitive(I):
        cell, p = I.content(I.w.cell), I.content(I.w.pmat)
        a = T.fresh('a')
        return Arr((Dm, Dm), T.sum_range(a, 0, Dm, cell.at(a, D(1)) * p.at(a, D(0))))

    # ---- a new primitive matrix replaces everything derived from the old one
    derived = ('_number_of_atom_types', '_number_of_primitive_atoms', '_atom_type_index', '_primitive_cell')

    def setup(I):
        w = structure(I, **{f: Opaque('some:old ' + f) for f in derived + ('_primitive_matrix',)})
        return [w.self, w.pmat], {}

    def check(ob, I, o):
        for f in ('get_number_of_atom_types', 'get_number_of_primitive_atoms'):
            I.contracts = dict(plain, **{STRUCT + '.get_atom_type_index': by_supercell('ty', 'ty0')})
            ob(f + ' afterwards', I.call(I.getattr(I.w.self, f), [], {}), A)
        I.contracts = plain
        ob('primitive cell afterwards', I.call(I.getattr(I.w.self, 'get_primitive_cell'), [], {}), primitive(I))
        I.contracts = dict(c)
        types(I, ob, 'types afterwards', request(I, 'get_atom_type_index'))
        ob('primitive matrix as set', I.field(I.w.self, '_primitive_matrix'), I.w.pmat)
    plain = {k: v for k, v in c.items() if not k.endswith(('get_number_of_atom_types', 'get_number_of_primitive_atoms', 'get_primitive_cell', 'get_primitive_matrix'))}
    plain['builtins.set'] = distinct
    plain['numpy.unique'] = distinct
    E.function('set_primitive_matrix', STRUCT + '.set_primitive_matrix', setup, check, contracts=c, facts=SIZES)

    # ---- how many there are
    for name in ('get_number_of_atom_types', 'get_number_of_primitive_atoms'):
        def setup(I):
            return [structure(I).self], {}

        def check(ob, I, o):
            ob('number of classes', o.value, A)
            ob('a second request', again(I, STRUCT + '.' + name, I.w.self), A)
        E.function(name, STRUCT + '.' + name, setup, check, contracts=dict(plain, **{STRUCT + '.get_atom_type_index': by_supercell('ty', 'ty0')}), facts=SIZES)

    def setup(I):
        w = structure(I)
        I.set_field(w.self, '_primitive_matrix', w.pmat)
        return [w.self], {}

    def check(ob, I, o):
        ob('columns of the primitive matrix in the unit cell', o.value, primitive(I))
        ob('a second request', again(I, STRUCT + '.get_primitive_cell', I.w.self), primitive(I))
    E.function('get_primitive_cell', STRUCT + '.get_primitive_cell', setup, check, contracts=plain, facts=SIZES)

    def setup(I):
        return [structure(I).self], {}

    def check(ob, I, o):
        ob('the unit cell when no primitive matrix is given', o.value, Arr((Dm, Dm), T.eq(D(0), D(1))))
        ob('primitive cell then', I.call(I.getattr(I.w.self, 'get_primitive_cell'), [], {}), I.w.cell)
    E.function('get_primitive_matrix, none given', STRUCT + '.get_primitive_matrix', setup, check, contracts=plain, facts=SIZES)
    E.trust('equivalence of atoms within the tolerance of 0.001 square Angstrom is an equivalence relation (reflexive, symmetric, transitive)',
            'the number of distinct values of the types is the number of classes (A)')


def distinct(I, x, **kw):
    """A list of one entry per type, for the types of all the atoms of the unit cell."""
    if kw:
        raise Undecided('unique with options')
    a = I.arr(x)
    if a.ndim == 1 and same_dim(a.shape[0], U) and a.expr == T.app('ty0', [D(0)], 'i', nn=True):
        return seq(I, A, lambda i: i)
    raise Undecided('distinct values of something else')
