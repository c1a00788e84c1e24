"""Contracts of C19: average positions."""
from contracts.world import *
from contracts.C13 import unique
from dpv.deductive.npfun import inv_arr, prod_of

LEVEL = 'proof'
TECHNIQUE = 'contracts on the real Python source, symbolic execution with inductive loop summaries, term normal form and z3; bounded replay on the real code'
NOTE = 'average_positions proved for all sizes, displacements and cells; that rounding to the middle leaves cell coordinates between 0 and 1 is a lemma over the contract'


def disp(t, i, k):
    return T.app('d', [P(t), P(i), P(k)])


def inside(p, cell, k, dim):
    """Component k of p - cell . round(inverse(cell transposed) p - 1/2): p(j) and cell(i, j) are terms."""
    a, b = T.fresh('a'), T.fresh('b')
    inv = inv_arr(Arr((dim, dim), cell(D(1), D(0))))
    s = T.fresh('s')
    frac = lambda i: T.sum_range(b, 0, dim, inv.at(i, b) * (p(b) - P(T.F(1, 2)) * T.sum_range(s, 0, dim, cell(s, b))))
    return p(k) - T.sum_range(a, 0, dim, T.rnd(frac(a)) * cell(a, k))


def obligations(E):
    def setup(unit, samples):
        def g(I):
            w = World(I)
            w.disp = I.mk(arr('d', (N, M, Dm)))
            w.self = new_dynamics(I, structure=w.structure, supercell=w.scell)
            w.traj = I.mk(arr('tr', (N, M, Dm)))
            I.set_field(w.self, '_trajectory', w.traj)
            kw = {'to_unit_cell': unit} if unit else {}
            return [w.self], kw
        return g

    def check(unit):
        def g(ob, I, o):
            t = T.fresh('t')
            if not unit:
                p = lambda k: T.app('x', [D(0), P(k)]) + T.sum_range(t, 0, N, disp(t, D(0), k)) / N
                cell = lambda i, j: T.app('scell', [P(i), P(j)])
                ob('reference position plus mean displacement, inside the MD cell', o.value, Arr((M, Dm), inside(p, cell, D(1), Dm)))
            else:
                cell = lambda i, j: T.app('cell', [P(i), P(j)])
                i, u = T.fresh('i'), T.fresh('u')
                mine = T.app('ty0', [D(0)], 'i', nn=True)
                count = T.sum_range(u, 0, U, T.eq(T.app('ty0', [u], 'i', nn=True), mine)) * prod_of(I.content(I.w.sup))
                mean = lambda k: T.sum_range(i, 0, M, T.eq(T.app('ty', [i], 'i', nn=True), mine) * T.sum_range(t, 0, N, disp(t, i, k)) / N) / count
                p = lambda k: T.app('x0', [D(0), P(k)]) + mean(k)
                ob('reference position plus mean displacement of the atoms of its type, inside the unit cell', o.value, Arr((U, Dm), inside(p, cell, D(1), Dm)))
        return g
    c = structure_contracts(**{DYN + '.get_relative_trajectory': lambda I, self: I.w.disp, 'numpy.unique': unique,
                               DYN + '.get_supercell_matrix': lambda I, self, tolerance=None: I.w.sup, DYN + '.get_number_of_atoms': const(M)})
    for unit in (False, True):
        E.function('average_positions%s' % (' of the unit cell' if unit else ''), DYN + '.average_positions', setup(unit, None), check(unit), contracts=c,
                   facts=SIZES)
    E.trust('numpy.unique of the atom types returns all the types 0..A-1 and how often each occurs')
