"""Contracts of C01: atomic displacements."""
from contracts.world import *
from contracts.ckernels import *
from contracts.C13 import displacement, displaced

LEVEL = 'proof'
TECHNIQUE = 'contracts on the C kernel (clang syntax tree, symbolic execution with inductive loop summaries, term normal form and z3); bounded replay on the real code'
NOTE = 'the C kernel proved for every number of steps and cells of 1, 2 and 3 dimensions, get_relative_trajectory for all sizes; exact arithmetic, the choice at half-integers is round() of C'


def matrix(I, name, n):
    """A table of rows, as the kernel keeps matrices."""
    t = I.new(dict({'$n': n}, **{}))
    d = {'$n': n}
    for i in range(n):
        c = I.new(Arr((n,), T.app(name, [P(i), D(0)])))
        I.elt[c] = 'double'
        d[i] = Ptr(c, P(0))
    I.heap[t] = d
    I.elt[t] = 'double *'
    return Ptr(t, P(0))


def rows(I, p, n, m):
    d = I.heap[p.cid]
    return [[I.heap[d[i].cid].at(d[i].off + j) for j in range(m)] for i in range(n)]


def cofactor_inverse(a, n):
    if n == 1:
        return [[P(1) / a[0][0]]]
    det = MathMatrix.det(a)
    minor = lambda i, j: MathMatrix.det([r[:j] + r[j + 1:] for k, r in enumerate(a) if k != i])
    return [[(-1) ** (i + j) * minor(j, i) / det for j in range(n)] for i in range(n)]


def obligations(E):
    for n in (1, 2, 3):
        el = lambda i, j: T.app('a', [P(i), P(j)])
        A_ = [[el(i, j) for j in range(n)] for i in range(n)]

        def setup(I):
            return [matrix(I, 'a', n), P(n)], {}

        def check_det(ob, I, o):
            ob('the determinant', o.value, MathMatrix.det(A_))
        E.function('Determinant, %d' % n, CQual('displacements', 'Determinant'), setup, check_det)

        def check_inv(ob, I, o):
            b = rows(I, o.value, n, n)
            want = cofactor_inverse(A_, n)
            for i in range(n):
                for j in range(n):
                    ob('cofactor over determinant %d%d' % (i, j), b[i][j], want[i][j])
        E.function('matrix_inverse, %d' % n, CQual('displacements', 'matrix_inverse'), setup, check_inv)

    for n in (1, 2, 3):
        # the lattice vector: the cell rows are the lattice vectors
        c = lambda i, j: T.app('cell', [P(i), P(j)])
        x = lambda t, k: T.re(T.app('traj', [P(t), P(k)], 'c'))
        p = lambda k: T.app('pos', [P(k)])

        def setup_k(I):
            I.pyargs = {'trajectory': I.input_array('trajectory', arr('traj', (NS, n), 'c'), '_Complex double'),
                        'positions': I.input_array('positions', arr('pos', (n,)), 'double'),
                        'cell': I.input_array('cell', arr('cell', (n, n)), 'double')}
            return [Opaque('self'), Opaque('args'), Opaque('keywords')], {}

        def check_k(ob, I, o):
            a = [[c(j, i) for j in range(n)] for i in range(n)]          # a[i][j]: component i of lattice vector j
            inv = cofactor_inverse(a, n)
            t, k = D(0), D(1)
            whole = [T.fun('cround', sum((inv[i][j] * (x(t, j) - p(j)) for j in range(n)), T.ZERO), sort='i') for i in range(n)]
            e = sum((T.bracket_eq(k - i) * (x(t, i) - p(i) - sum((a[i][j] * whole[j] for j in range(n)), T.ZERO)) for i in range(n)), T.ZERO)
            ob('periodic difference', result(I, o, 2), Arr((NS, n), e))
        E.function('atomic_displacements, %d' % n, CQual('displacements', 'atomic_displacements'), setup_k, check_k, facts=[NS])
    # the whole relative trajectory, by the contract of the kernel
    for memmap in (False, True):
        def setup_r(I):
            w = World(I)
            w.t = I.mk(arr('t', (N, M, Dm)))
            w.self = new_dynamics(I, trajectory=w.t, supercell=w.scell, memmap=memmap, structure=w.structure)
            return [w.self], {}

        def check_r(ob, I, o):
            e = Arr((N, M, Dm), displaced(lambda k: T.app('t', [D(0), D(1), k]), lambda k: T.app('x', [D(1), k]), lambda i, j: T.app('scell', [i, j]), D(2)))
            ob('displacement of every atom', o.value, e)
            ob('a second request', again(I, DYN + '.get_relative_trajectory', I.w.self), e)
            ob('the trajectory stays', I.getattr(I.w.self, 'trajectory'), I.w.t)
        E.function('get_relative_trajectory' + (', memory mapped' if memmap else ''), DYN + '.get_relative_trajectory', setup_r, check_r,
                   contracts=structure_contracts(**{'dynaphopy.displacements.atomic_displacements': displacement,
                                                    DYN + '.get_supercell_matrix': lambda I, self, tolerance=None: I.w.sup}), facts=SIZES)

    # an atom moved by a lattice vector: the cell coordinates change by integers, which leave the rounding
    for n in (1, 2, 3):
        a = [[T.app('cell', [P(j), P(i)]) for j in range(n)] for i in range(n)]
        inv = cofactor_inverse(a, n)
        m = [T.var('m%d' % k, 'i') for k in range(n)]
        for i in range(n):
            q = sum((inv[i][j] * sum((a[j][l] * m[l] for l in range(n)), T.ZERO) for j in range(n)), T.ZERO)
            E.equal('lemma: the inverse takes lattice vectors to integers, %d, %d' % (n, i), q, m[i], function='lemma')
    E.trust('round(x + m) = round(x) + m for integers m and x not half an odd integer')
    E.trust(*C_TRUST)
