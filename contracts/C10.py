"""Contracts of C10: recognition of the MD supercell."""
from contracts.world import *
from dpv.deductive.npfun import inv_arr, prod_of

LEVEL = 'proof'
TECHNIQUE = 'contracts on the real Python source, symbolic execution with inductive loop summaries, term normal form and z3; bounded replay on the real code'
NOTE = 'get_supercell_matrix, get_number_of_atoms and check_commensurate proved for all cells and wave vectors'


def length(name, k):
    j = T.fresh('j')
    x = T.app(name, [P(k), j])
    return T.sqrt(T.sum_range(j, 0, Dm, x * x))


def ratio(k):
    return length('scell', k) / length('cell', k)


def obligations(E):
    def setup(remembered):
        def g(I):
            w = World(I)
            w.self = new_dynamics(I, structure=w.structure, supercell=w.scell)
            if remembered:
                w.known = I.mk(arr('known', (Dm,), 'i'))
                I.set_field(w.self, '_supercell_matrix', w.known)
            return [w.self], {}
        return g

    def check(ob, I, o):
        k, s = T.fresh('k'), T.fresh('s')
        dev = T.sum_range(k, 0, Dm, T.absolute(T.rnd(ratio(k)) - ratio(k))) / T.sqrt(T.sum_range(s, 0, Dm, ratio(s) * ratio(s)))
        ok = T.ge(P(T.F(1, 100)), dev)
        ob('stops exactly when the summed deviation exceeds one per cent', ok, P(0 if o.kind == 'exit' else 1))
        if o.kind != 'exit':
            ob('the nearest whole multiples', o.value, Arr((Dm,), T.rnd(ratio(D(0)))))
            ob('a second request', again(I, DYN + '.get_supercell_matrix', I.w.self), Arr((Dm,), T.rnd(ratio(D(0)))))
    E.function('get_supercell_matrix', DYN + '.get_supercell_matrix', setup(False), check, contracts=structure_contracts(), facts=SIZES, outcome=('next', 'exit'))

    def same(ob, I, o):
        ob('the sizes already recognised', o.value, I.w.known)
    E.function('get_supercell_matrix, again', DYN + '.get_supercell_matrix', setup(True), same, contracts=structure_contracts(), facts=SIZES)

    def setup_n(I):
        w = World(I)
        w.self = new_dynamics(I, structure=w.structure, supercell=w.scell)
        return [w.self], {}

    def check_n(ob, I, o):
        e = U * prod_of(I.content(I.w.sup))
        ob('unit cell atoms times the product of the sizes', o.value, e)
        ob('a second request', again(I, DYN + '.get_number_of_atoms', I.w.self), e)
    E.function('get_number_of_atoms', DYN + '.get_number_of_atoms', setup_n, check_n, facts=SIZES,
               contracts=structure_contracts(**{DYN + '.get_supercell_matrix': lambda I, self, tolerance=None: I.w.sup}))

    for dim in (Dm, P(3)):
        def setup_q(I):
            w = World(I, dim=dim)
            w.q = I.mk(arr('rq', (dim,)))
            w.dyn = I.new_obj(DYN, {'$open': True})
            w.self = I.new_obj(QP, {'dynamic': w.dyn})
            return [w.self, w.q], {}

        def check_q(ob, I, o):
            inv = inv_arr(I.content(I.w.pmat))
            k, j = T.fresh('k'), T.fresh('j')
            # q.R / 2 pi of every lattice vector R of the supercell, to four decimals, is whole
            part = T.rnd(T.sum_range(j, 0, dim, T.app('rq', [j]) * inv.at(j, k)) * T.app('sup', [k], 'i', nn=True) * 10 ** 4) / 10 ** 4
            whole = T.eq(part - T.floor(part), 0)
            e = T.bracket_eq(T.sum_range(k, 0, dim, 1 - whole)) if dim is Dm else None
            if e is None:
                e = T.ONE
                for kk in range(3):
                    e = e * T.subst(whole, {T.var_name(k): P(kk)})
            v = o.value
            ob('commensurate exactly when every lattice vector of the supercell gives a whole phase', v if isinstance(v, Bool) else P(int(v)) if isinstance(v, bool) else v, e)
        E.function('check_commensurate, %s dimensions' % ('any number of' if dim is Dm else '3'), QP + '.check_commensurate', setup_q, check_q, facts=SIZES,
                   contracts=structure_contracts(**{DYN + '.structure': prop(lambda I: I.w.structure),
                                                    DYN + '.get_supercell_matrix': lambda I, self, tolerance=None: I.w.sup}))
    E.trust('the primitive cell is the unit cell times the primitive matrix (proved under C11), so that q.(n.cell)/2 pi = n.(q_reduced . inverse primitive matrix)')
