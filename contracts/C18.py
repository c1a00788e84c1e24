"""Contracts of C18: second moments of the displacements."""
from contracts.world import *
from contracts.C13 import unique

LEVEL = 'proof'
TECHNIQUE = 'contracts on the real Python source, symbolic execution with inductive loop summaries, term normal form and z3; bounded replay on the real code'
NOTE = 'get_mean_displacement_matrix proved for all sizes, displacements and remembered values; get_anisotropic_displacement_parameters for three dimensions and any number of atom types'


def disp(t, i, k):
    return T.app('d', [P(t), P(i), P(k)])


def matrix(average):
    """Second moment of the displacements of all the atoms of type @0 (as many as unit cell atoms of it times the cells)."""
    i, t, s = T.fresh('i'), T.fresh('t'), T.fresh('s')
    mean = lambda k: T.sum_range(s, 0, N, disp(s, i, k)) / N if average else T.ZERO
    total = T.sum_range(i, 0, M, T.eq(T.app('ty', [i], 'i', nn=True), D(0)) *
                        T.sum_range(t, 0, N, (disp(t, i, D(1)) - mean(D(1))) * (disp(t, i, D(2)) - mean(D(2)))))
    u = T.fresh('u')
    count = T.sum_range(u, 0, U, T.eq(T.app('ty0', [u], 'i', nn=True), D(0)))
    return total / (count * N)


def obligations(E):
    def contracts(cached):
        return structure_contracts(**{DYN + '.get_relative_trajectory': lambda I, self: I.w.disp, 'numpy.unique': unique,
                                      DYN + '.get_supercell_matrix': lambda I, self, tolerance=None: I.w.sup, DYN + '.get_number_of_atoms': const(M)})
    for average in (False, True):
        for remembered in (None, False, True):
            def setup(I):
                w = World(I)
                w.disp = I.mk(arr('d', (N, M, Dm)))
                w.self = new_dynamics(I, structure=w.structure)
                if remembered is not None:
                    I.inline(I.function(DYN + '.get_mean_displacement_matrix'), [w.self, remembered], {})
                return [w.self, average], {}

            def check(ob, I, o):
                from dpv.deductive.npfun import prod_of
                cells = prod_of(I.content(I.w.sup))
                e = Arr((A, Dm, Dm), matrix(average) / cells)
                ob('second moment of the displacements of the atoms of each type', o.value, e)
                ob('a second request', again(I, DYN + '.get_mean_displacement_matrix', I.w.self, average), e)
                ob('the other request afterwards', again(I, DYN + '.get_mean_displacement_matrix', I.w.self, not average),
                   Arr((A, Dm, Dm), matrix(not average) / cells))
            E.function('get_mean_displacement_matrix, about the %s positions%s' % ('average' if average else 'reference', '' if remembered is None else
                       ', after a request about the %s positions' % ('average' if remembered else 'reference')),
                       DYN + '.get_mean_displacement_matrix', setup, check, contracts=contracts(None), facts=SIZES)

    # ---- anisotropic displacement parameters
    for kind in ('cart', 'crys', 'uvrs'):
        for show in (False, True):
            def setup(I):
                w = World(I, dim=3)
                w.dyn = I.new_obj(DYN, {'$open': True})
                w.U = I.mk(arr('u', (A, 3, 3)))
                w.el = seq(I, U, lambda i: Opaque('element'))
                w.self = I.new_obj(QP, {'dynamic': w.dyn})
                return [w.self], {'coordinate_type': kind, 'print_on_screen': show}

            def matrix_of(I, self, use_average_positions=False):
                if use_average_positions is not True:
                    raise Undecided('displacements are not relative to the average positions: %r' % (use_average_positions,))
                return I.w.U

            def check(ob, I, o):
                from dpv.deductive.npfun import inv_arr
                inv = inv_arr(I.content(I.w.cell))
                u = lambda i, j: T.app('u', [D(0), P(i), P(j)])
                if kind == 'cart':
                    e = u(D(1), D(2))
                else:
                    a, b = T.fresh('a'), T.fresh('b')
                    e = T.sum_range(a, 0, 3, T.sum_range(b, 0, 3, inv.at(a, D(1)) * u(a, b) * inv.at(b, D(2))))
                    if kind == 'uvrs':
                        def norm(k):
                            q = T.fresh('q')
                            return T.sqrt(T.sum_range(q, 0, 3, inv.at(q, k) * inv.at(q, k)))
                        e = e / norm(D(1)) / norm(D(2))
                ob('parameters of every atom type', o.value, Arr((A, 3, 3), e))
            E.function('get_anisotropic_displacement_parameters, %s%s' % (kind, ', printed' if show else ''), QP + '.get_anisotropic_displacement_parameters', setup, check,
                       contracts=structure_contracts(**{DYN + '.get_mean_displacement_matrix': matrix_of, 'numpy.unique': unique_types,
                                                        STRUCT + '.get_atomic_elements': lambda I, self, supercell=None, unique=False: I.w.el,
                                                        DYN + '.structure': prop(lambda I: I.w.structure)}), facts=SIZES)
    E.trust('numpy.unique of the atom types returns all the types 0..A-1, where each occurs first and how often')


def unique_types(I, x, return_counts=False, return_index=False, return_inverse=False):
    if return_index and not return_counts and not return_inverse:
        return (I.mk(Arr((A,), D(0), 'i')), I.mk(Arr((A,), T.app('first', [D(0)], 'i', nn=True), 'i')))
    return unique(I, x, return_counts=return_counts, return_index=return_index, return_inverse=return_inverse)
