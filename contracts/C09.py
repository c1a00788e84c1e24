"""Contracts of C09: the order of atoms in supercells."""
from contracts.world import *
from dpv.deductive.npfun import inv_arr

LEVEL = 'proof'
TECHNIQUE = 'contracts on the real Python source, symbolic execution with inductive loop summaries, term normal form and z3; bounded replay on the real code'
NOTE = 'get_positions, get_scaled_positions, get_masses, get_charges, get_atomic_numbers, get_atomic_elements, get_atom_type_index and get_cell proved for every number of atoms and all supercell sizes'
SUP = [size('n0'), size('n1'), size('n2')]
IMAGES = SUP[0] * SUP[1] * SUP[2]


def unit_atom(k):
    """Unit cell atom of supercell atom k, and the cell (a, b, c) it is in: the first axis runs fastest."""
    k = P(k)
    u = T.floordiv(k, IMAGES)
    r = k - IMAGES * u
    b = T.floordiv(r, SUP[0])
    a = r - SUP[0] * b
    c = T.floordiv(b, SUP[1])
    return u, (a, b - SUP[1] * c, c)


def position(k, x, images=True):
    """Component x of the position of supercell atom k."""
    if not images:
        return T.app('pos', [P(k), x])
    u, n = unit_atom(k)
    return T.app('pos', [u, x]) + sum((n[j] * T.app('cell', [P(j), x]) for j in range(3)), T.ZERO)


def structure(I, scaled=False, **more):
    """A Structure with arbitrary data, made by the real constructor."""
    ci = I.class_info(STRUCT)
    kw = {'cell': I.mk(arr('cell', (3, 3))), 'masses': I.mk(arr('m', (U,), nn=True)), 'charges': I.mk(arr('charge', (U,))),
          'atomic_numbers': I.mk(arr('z', (U,), 'i', nn=True)), 'atomic_elements': seq(I, U, lambda i: T.app('element', [i], 'i')),
          'atom_type_index': I.mk(arr('type', (U,), 'i', nn=True))}
    if scaled:
        kw['scaled_positions'] = I.mk(arr('frac', (U, 3)))
    else:
        kw['positions'] = I.mk(arr('pos', (U, 3)))
    kw.update(more)
    return I.construct(STRUCT, ci, [], {k: v for k, v in kw.items() if v is not None})


FACTS_ = [U - 1] + [s - 1 for s in SUP]


def obligations(E):
    def sup_of(I, sup):
        return None if not sup else ListRef(I.new(Seq((('items', tuple(SUP)),)))) if sup == 'list' else I.mk(Arr((3,), sum((T.eq(D(0), j) * SUP[j] for j in range(3)), T.ZERO), 'i'))

    def setup(sup, scaled=False, before=()):
        def g(I):
            World(I, dim=3)
            w = I.w
            w.self = structure(I, scaled)
            w.supercell = sup_of(I, sup)
            for m, args in before:
                I.call(I.getattr(w.self, m), [w.supercell if a == 'sup' else a for a in args], {})
            return [w.self] + ([] if w.supercell is None else [w.supercell]), {}
        return g

    pos0 = lambda k, x: T.app('pos', [P(k), P(x)])
    for sup in (None, 'list', 'array'):
        n = U * IMAGES if sup else U
        tag = '' if not sup else ', supercell'
        if sup == 'array':
            tag += ' given as array'

        def check_pos(ob, I, o):
            ob('images of atom 0 first, the first axis fastest', o.value, Arr((n, 3), position(D(0), D(1), bool(sup))))
            ob('a second request', again(I, STRUCT + '.get_positions', I.w.self, *([] if not sup else [I.w.supercell])),
               Arr((n, 3), position(D(0), D(1), bool(sup))))
        E.function('get_positions' + tag, STRUCT + '.get_positions', setup(sup), check_pos, facts=FACTS_)
        E.function('get_positions' + tag + ', after the other request', STRUCT + '.get_positions',
                   setup(sup, before=[('get_positions', []), ('get_masses', [])]), check_pos, facts=FACTS_)

        def check_frac_pos(ob, I, o):
            j = T.fresh('j')
            u, c = unit_atom(D(0)) if sup else (D(0), (0, 0, 0))
            e = T.sum_range(j, 0, 3, T.app('frac', [u, j]) * T.app('cell', [j, D(1)])) + sum((c[j] * T.app('cell', [P(j), D(1)]) for j in range(3)), T.ZERO)
            ob('scaled positions times the cell', o.value, Arr((n, 3), e))
        E.function('get_positions from scaled positions' + tag, STRUCT + '.get_positions', setup(sup, scaled=True), check_frac_pos, facts=FACTS_)

        for fn, name, srt, nn in (('get_masses', 'm', 'r', True), ('get_charges', 'charge', 'r', False), ('get_atomic_numbers', 'z', 'i', True),
                                  ('get_atomic_elements', 'element', 'i', False), ('get_atom_type_index', 'type', 'i', True)):
            def check_list(ob, I, o):
                u = unit_atom(D(0))[0] if sup else D(0)
                e = Arr((n,), T.app(name, [u], srt, nn))
                ob('images of atom 0 first', I.arr(o.value), e)
                ob('a second request', I.arr(again(I, STRUCT + '.' + fn, I.w.self, *([] if not sup else [I.w.supercell]))), e)
            E.function(fn + tag, STRUCT + '.' + fn, setup(sup), check_list, facts=FACTS_)

        def check_scaled(ob, I, o):
            # scaled positions times the supercell vectors are the positions: positions times the inverse of the supercell vectors
            cell = lambda i, j: T.app('cell', [P(i), P(j)]) * (sum((T.eq(P(i), k) * SUP[k] for k in range(3)), T.ZERO) if sup else 1)
            inv = inv_arr(Arr((3, 3), cell(D(0), D(1))))
            j = T.fresh('j')
            ob('positions times the inverse cell', o.value, Arr((n, 3), T.sum_range(j, 0, 3, position(D(0), j, bool(sup)) * inv.at(j, D(1)))))
        E.function('get_scaled_positions' + tag, STRUCT + '.get_scaled_positions', setup(sup), check_scaled, facts=FACTS_)

        def check_cell(ob, I, o):
            e = T.app('cell', [D(0), D(1)]) * (sum((T.eq(D(0), k) * SUP[k] for k in range(3)), T.ZERO) if sup else 1)
            ob('unit cell vectors times the sizes', o.value, Arr((3, 3), e))
        E.function('get_cell' + tag, STRUCT + '.get_cell', setup(sup), check_cell, facts=FACTS_)

    def check_frac(ob, I, o):
        ob('the given scaled positions', o.value, Arr((U, 3), T.app('frac', [D(0), D(1)])))
    E.function('get_scaled_positions, given', STRUCT + '.get_scaled_positions', setup(None, scaled=True), check_frac, facts=FACTS_)

    def check_count(ob, I, o):
        ob('number of atoms of the unit cell', o.value, U)
    for fn in ('get_number_of_atoms', 'get_number_of_cell_atoms'):
        E.function(fn, STRUCT + '.' + fn, setup(None), check_count, facts=FACTS_)
    E.trust('itertools.product runs through the last range fastest', 'element names are compared as opaque values')


