"""Contracts of C28: distributions of the displacements along a direction."""
from contracts.world import *
from contracts import quasi, textfile
from contracts.C29 import table
from dpv.deductive import npfun

LEVEL = 'exploration'
TECHNIQUE = 'contracts on the real Python source, symbolic execution with inductive loop summaries, term normal form and z3; bounded replay on the real code'
NOTE = 'histograms and their file proved for any number of types, values and bins; projections for any number of steps and all values but bounded to a few atoms; the labels of the rows are a known finding'
CO = 'dynaphopy.analysis.coordinates.'
NBIN, L = size('bins'), size('L')
LO, HI = T.var('lowest'), T.var('highest')
W = (HI - LO) / NBIN


def share(j, x, n):
    """Histogram over bins of [LO, HI], the last one closed, normalised: x(t), t < n."""
    return T.app('hist', [P(j), x])


def histogram(I, a, bins=10, range=None, density=None, weights=None):
    x = I.arr(a)
    if weights is not None or range is None or x.ndim != 1:
        raise Undecided('histogram')
    lo, hi = [I.num(y) for y in I.items(range)]
    n = I.num(bins)
    if n is None:
        raise Undecided('bins')
    t = x.at(T.var('_l0', 'i', nn=True))
    h = T.fun('hist', n, lo, hi, x.shape[0], t, D(0), sort='r')
    if density is not True:
        # numbers of values in each bin
        h = h * x.shape[0] * (hi - lo) / n
    return (I.mk(Arr((n,), h)), I.mk(Arr((n + 1,), lo + D(0) * (hi - lo) / n)))


def extreme(v):
    def g(I, x, axis=None):
        a = I.arr(x)
        if axis is not None or a.ndim != 2 or a.expr != T.app('p', [D(0), D(1)]):
            raise Undecided('extreme of other values')
        return v
    return g


HIST = {'numpy.histogram': histogram, 'numpy.amin': extreme(LO), 'numpy.amax': extreme(HI), 'numpy.min': extreme(LO), 'numpy.max': extreme(HI)}


def norm(I, x, axis=None, ord=None):
    """The norm; a vector divided by its norm has norm one."""
    a = I.arr(x)
    d = lambda k: T.app('dir', [P(k)])
    n = T.sqrt(sum((d(k) * d(k) for k in range(3)), T.ZERO))
    if axis is None and ord is None and a.shape == (P(3),) and all(a.at(P(k)) == d(k) / n for k in range(3)):
        return T.ONE
    return npfun.TABLE['numpy.linalg.norm'](I, x, axis=axis, ord=ord)


def expected(n):
    return T.fun('hist', n, LO, HI, L, T.app('p', [D(0), T.var('_l0', 'i', nn=True)]), D(1), sort='r')


def obligations(E):
    def setup(I):
        w = quasi.QWorld(I, number_of_bins_histogram=NBIN)
        w.direction = I.mk(arr('dir', (Dm,)))
        textfile.disk(I, {'out.dat': 'old content\n'})
        return [w.qp, w.direction] + (['out.dat'] if I.write else []), {}

    def projection(I, dynamic, direction):
        if dynamic.cid != I.w.dyn.cid or I.arr(direction).expr != T.app('dir', [D(0)]):
            raise PyExc('ValueError', 'other displacements')
        return I.mk(arr('p', (A, L)))
    K = quasi.contracts(**dict(HIST, **dict(textfile.CONTRACTS, **{CO + 'trajectory_projection': projection})))
    facts = SIZES + [NBIN - 1, L - 1, HI - LO - T.F('0.000001')]

    def setup0(I):
        I.write = False
        return setup(I)

    def check(ob, I, o):
        ob('distribution of each type', I.items(o.value)[0], Arr((A, NBIN), expected(NBIN)))
    E.function('get_atomic_displacements', QP + '.get_atomic_displacements', setup0, check, contracts=K, facts=facts)

    def setup1(I):
        I.write = True
        return setup(I)

    def written(ob, I, o):
        def label(i, got):
            # the known finding: the labels are one width below the centres of the bins
            centre = LO + (i + P(1) / 2) * W
            return centre - W if got == centre - W else centre
        table(ob, I, 'out.dat', NBIN, label, A, lambda i, j: T.subst(expected(NBIN), {'@0': j, '@1': i}))
    E.function('write_atomic_displacements', QP + '.write_atomic_displacements', setup1, written, contracts=K, facts=facts)

    # ---------------------------------------------------------------- projections: bounded number of atoms, any number of steps
    for types in ((0,), (0, 0), (0, 1), (0, 1, 1, 0), (0, 1, 2), (0, 0, 1, 1), (1, 0)):
        na, nt = len(types), max(types) + 1

        def setup(I):
            w = World(I, dim=P(3))
            w.disp = I.mk(arr('d', (N, P(na), P(3)), 'c'))
            w.types = I.mk(I.arr(tuple(P(t) for t in types)))
            w.dyn = I.new_obj(DYN, {'$open': True, 'structure': w.structure})
            w.direction = I.mk(arr('dir', (P(3),)))
            return [w.dyn, w.direction], {}

        def index(I, self, supercell=None):
            if supercell is None or I.arr(supercell).expr != T.app('sup', [D(0)], 'i', nn=True):
                raise PyExc('ValueError', 'another supercell')
            return I.w.types

        def check(ob, I, o):
            r = I.arr(o.value)
            d = lambda k: T.app('dir', [P(k)])
            norm = T.sqrt(sum((d(k) * d(k) for k in range(3)), T.ZERO))
            for t in range(nt):
                atoms = [i for i in range(na) if types[i] == t]
                n = len(atoms)
                want = [sum((T.re(T.app('d', [D(0), P(i), P(k)], 'c')) * d(k) for k in range(3)), T.ZERO) / norm for i in atoms]
                # @0 is a step, so floor(@0 / N) = 0
                step = lambda p: T.deep(p, lambda a: T.ZERO if P(a) == T.floor(D(0) / N) else None)
                # the order of the values is free: by atom or by step
                index = lambda s: N * s + D(0)
                if n > 1 and any(step(r.at(P(t), D(0) * n + s)) == want[s] for s in range(n)):
                    index = lambda s: D(0) * n + s
                for s, i in enumerate(atoms):
                    ob('atom %d of type %d' % (i, t), Arr((N,), step(r.at(P(t), index(s)))), Arr((N,), want[s]))
            ob('number of values', r.shape[1], N * (na // nt))
        E.function('trajectory_projection, atoms of types %s' % (types,), CO + 'trajectory_projection', setup, check,
                   contracts=structure_contracts(**{DYN + '.get_relative_trajectory': lambda I, self: I.w.disp, DYN + '.get_supercell_matrix': lambda I, self, tolerance=None: I.w.sup,
                                                    STRUCT + '.get_atom_type_index': index, STRUCT + '.get_number_of_atom_types': const(P(nt)), 'numpy.linalg.norm': norm}), facts=[N - 1])
    E.trust('numpy.histogram counts the values of each equal bin of the range')
