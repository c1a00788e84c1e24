"""Contracts of C27: the harmonic trajectory generated for tests."""
from contracts.phon import *
from dpv.deductive.npfun import prod_of, inv_arr

LEVEL = 'proof'
TECHNIQUE = 'contracts on the real Python source, symbolic execution with inductive loop summaries, term normal form and z3; bounded replay on the real code'
NOTE = 'generate_test_trajectory proved for every crystal, supercell, number of modes and time steps, frequencies and eigenvectors; phonopy is trusted to return as many commensurate points as primitive cells'
IO = 'dynaphopy.interface.iofile.'
KB = T.F('0.831446')
NM = size('NM')          # modes
V = size('V')            # primitive cells per unit cell
SUP = [T.app('sup', [P(k)], 'i', nn=True) for k in range(3)]
PHASE, TEMP, TMIN, DT, TOTAL = T.var('phase'), T.var('temperature', nn=True), T.var('fmin', nn=True), T.var('dt', nn=True), T.var('total', nn=True)


def obligations(E):
    nq = V * SUP[0] * SUP[1] * SUP[2]
    qpoint = lambda j, x: T.app('Q', [P(j), P(x)])
    freq = lambda b, q: T.app('w', [P(b)] + q)
    vec = lambda b, a, k, q: T.app('e', [P(b), P(a), P(k)] + q, 'c')

    def setup(I):
        w = World(I, dim=P(3))
        w.sup3 = tuple(SUP)
        w.psup = I.mk(arr('psup', (3, 3), 'i'))
        w.mx, w.mm, w.mty = I.mk(arr('x', (M, 3))), seq(I, M, lambda i: T.app('mass', [i], nn=True)), I.mk(arr('ty', (M,), 'i', nn=True))
        return [w.structure], {'supercell': w.sup3, 'minimum_frequency': TMIN, 'total_time': TOTAL, 'time_step': DT, 'temperature': TEMP, 'silent': True, 'phase_0': PHASE}

    def points(I, structure, supercell):
        a = I.arr(supercell)
        if a.shape != (P(3), P(3)) or any(a.at(i, j) != (I.w.sup3[i] if i == j else T.ZERO) for i in range(3) for j in range(3)):
            raise PyExc('ValueError', 'another supercell')
        return I.mk(Arr((nq, P(3)), qpoint(D(0), D(1))))

    def modes(I, structure, q, test_orthonormal=False, print_data=True):
        q = [I.arr(q).at(P(k)) for k in range(3)]
        return (I.mk(Arr((NM, A, P(3)), vec(D(0), D(1), D(2), q))), I.mk(Arr((NM,), freq(D(0), q))))

    def whole(name):
        def g(I, self, supercell=None):
            if supercell is None or [P(x) for x in I.items(supercell)] != list(I.w.sup3):
                raise PyExc('ValueError', 'another supercell')
            return getattr(I.w, name)
        return g

    def made_(I, **kw):
        return I.new_obj(DYN, dict(kw, **{'$open': True}))

    def check(ob, I, o):
        g = lambda k: I.field(o.value, k)
        x = I.arr(g('trajectory'))
        steps = x.shape[0]
        ob('structure', P(1 if g('structure').cid == I.w.structure.cid else 0), P(1))
        t = D(0) * DT
        b, j, c = T.fresh('b'), T.fresh('j'), T.fresh('c')
        inv = inv_arr(I.content(I.w.prim))
        q = [qpoint(j, k) for k in range(3)]
        cart = lambda k: 2 * T.PI * sum((q[l] * inv.at(k, l) for l in range(3)), T.ZERO)
        r = lambda i, k: T.app('x', [P(i), P(k)])
        arg = sum((cart(k) * r(D(1), k) for k in range(3)), T.ZERO) + PHASE
        om = freq(b, q)
        amp = T.sqrt(3 * P(KB) * TEMP / nq)
        wave = vec(b, T.app('ty', [D(1)], 'i', nn=True), D(2), q) * T.exp(T.I * (arg - 2 * T.PI * om * t)) / T.sqrt(T.app('mass', [D(1)], nn=True))
        high = T.bracket_gt(T.absolute(om) - TMIN) if hasattr(T, 'bracket_gt') else 1 - T.bracket_ge(TMIN - T.absolute(om))
        e = T.sum_range(b, 0, NM, T.sum_range(j, 0, nq, high * T.re(wave) * amp / (2 * T.PI * om)))
        ob('positions at every step', x, Arr((steps, M, P(3)), r(D(1), D(2)) + e, 'c'))
        ob('times', g('time'), Arr((steps,), t))
        s = I.arr(g('supercell'))
        ob('supercell', s, Arr((3, 3), I.w.sup3[0] * 0 + T.app('sup', [D(0)], 'i', nn=True) * T.app('cell', [D(0), D(1)])))
        ob('steps up to the total time', steps, T.ceil(TOTAL / DT) if hasattr(T, 'ceil') else -T.floor(-TOTAL / DT))
    E.function('generate_test_trajectory', IO + 'generate_test_trajectory', setup, check,
               contracts=structure_contracts(**{
                   PL + 'get_commensurate_points': points, PL + 'obtain_eigenvectors_and_frequencies': modes, DYN: made_,
                   STRUCT + '.get_supercell_phonon': lambda I, self: I.w.psup, STRUCT + '.get_positions': whole('mx'), STRUCT + '.get_masses': whole('mm'),
                   STRUCT + '.get_atom_type_index': whole('mty'),
                   STRUCT + '.get_number_of_cell_atoms': lambda I, self: A * V}), facts=SIZES + [V - 1, NM - 1, -T.floor(-TOTAL / DT) - 1] + [x - 1 for x in SUP])
    E.trust('phonopy returns as many commensurate wave vectors as the supercell has primitive cells', 'the generated time is longer than zero')
