"""Contracts of C06: assembly of the spectra."""
from contracts.quasi import *

LEVEL = 'proof'
TECHNIQUE = 'contracts on the real Python source, symbolic execution with inductive loop summaries, term normal form and z3; bounded replay on the real code'
NOTE = 'full, partial, wave vector and phonon spectra for every crystal, number of atoms, signals, equivalent wave vectors and each algorithm; the spectrum of one signal by its contract (C02, C03, C05)'
L0 = T.var('_l0', 'i', nn=True)
FACTS_ = SIZES + [N - 2, NF - 2]


def obligations(E):
    vm = lambda t, i, k: T.app('vm', [t, i, k], 'c')

    def base(alg):
        return contracts(**dict(spectra_contracts(alg), **{
            DYN + '.get_velocity_mass_average': lambda I, self: I.w.vm,
            DYN + '.get_supercell_matrix': lambda I, self, tolerance=None: I.w.sup}))

    for alg in (0, 1, 2, 3):
        # ------------------------------------------------------------ full spectrum
        for silent in (True, False):
            def setup(I):
                w = QWorld(I, power_spectra_algorithm=P(alg), silent=silent)
                w.vm = I.mk(arr('vm', (N, M, Dm), 'c'))
                return [w.qp], {}

            def check(ob, I, o):
                i, k = T.fresh('i'), T.fresh('k')
                want = Arr((NF,), T.sigma([i, k], [i, M - 1 - i, k, Dm - 1 - k], S(T.app('freq', [D(0)]), vm(L0, i, k), N)))
                ob('sum over atoms and coordinates', o.value, want)
                ob('a second request', again(I, QP + '.get_power_spectrum_full', I.w.qp), want)
            E.function('full, algorithm %d%s' % (alg, ', silent' if silent else ''), QP + '.get_power_spectrum_full', setup, check, contracts=base(alg), facts=FACTS_)

            for coordinate in (None, T.var('c', 'i', nn=True)):
                def setup_p(I):
                    w = QWorld(I, power_spectra_algorithm=P(alg), silent=silent, project_on_atom=T.var('type', 'i', nn=True))
                    w.vm = I.mk(arr('vm', (N, M, Dm), 'c'))
                    return [w.qp] + ([] if coordinate is None else [coordinate]), {}

                def check_p(ob, I, o):
                    i, k = T.fresh('i'), T.fresh('k')
                    mine = T.bracket_eq(T.app('ty', [i], 'i', nn=True) - T.var('type', 'i', nn=True))
                    none = T.eq(T.sum_range(i, 0, M, mine), 0)
                    if o.kind == 'exit':
                        ob('stops only when there is no such atom', none, P(1))
                        return
                    if coordinate is None:
                        want = T.sigma([i, k], [i, M - 1 - i, k, Dm - 1 - k], mine * S(T.app('freq', [D(0)]), vm(L0, i, k), N))
                    else:
                        want = T.sigma([i], [i, M - 1 - i], mine * S(T.app('freq', [D(0)]), vm(L0, i, coordinate), N))
                    ob('sum over the atoms of the type', o.value, Arr((NF,), want))
                E.function('full, algorithm %d%s, projected%s' % (alg, ', silent' if silent else '', '' if coordinate is None else ' on a coordinate'),
                           QP + '.get_power_spectrum_full', setup_p, check_p, contracts=base(alg),
                           facts=FACTS_ + ([Dm - 1 - coordinate] if coordinate is not None else []), outcome=('next', 'exit'))

        # ------------------------------------------------------------ partial spectra
        def setup_a(I):
            w = QWorld(I, dim=P(3), power_spectra_algorithm=P(alg))
            w.vm = I.mk(arr('vm', (N, M, P(3)), 'c'))
            return [w.qp], {}

        def check_a(ob, I, o):
            want = Arr((NF, M), sum((S(T.app('freq', [D(0)]), vm(L0, D(1), P(k)), N) for k in range(3)), T.ZERO))
            ob('one column per atom, the sum of its coordinates', o.value, want)
            ob('a second request', again(I, QP + '.get_power_spectrum_partials', I.w.qp), want)
        E.function('partials, algorithm %d' % alg, QP + '.get_power_spectrum_partials', setup_a, check_a, contracts=base(alg), facts=FACTS_)

        # ------------------------------------------------------------ one wave vector
        def vc(q, t, a, k):
            return T.fun('vc', t, a, k, q, sort='c')

        def vq(q, t, m):
            return T.fun('vq', t, m, q, sort='c')
        L1 = T.var('_l1', 'i', nn=True)

        def present(I):
            return I.arr(I.getattr(I.w.par, 'reduced_q_vector')).at(L1)

        def get_vc(I, self):
            return I.mk(Arr((N, A, Dm), vc(present(I), D(0), D(1), D(2)), 'c'))

        def get_vq(I, self):
            return I.mk(Arr((N, NB), vq(present(I), D(0), D(1)), 'c'))

        def set_q(I, self, q):
            I.setattr(I.w.par, 'reduced_q_vector', I.mk(I.arr(q)))

        def equivalent(I, q, structure):
            if I.arr(q).expr != T.app('q', [D(0)]):
                raise Undecided('wave vectors equivalent to another one')
            s = T.fresh('s')
            return ListRef(I.new(Seq((('seq', NQ, T.var_name(s), arr_of((Dm,), lambda j: T.app('star', [s, j]))),))))
        more = {QP + '.get_vc': get_vc, QP + '.get_vq': get_vq, QP + '.set_reduced_q_vector': set_q,
                'dynaphopy.interface.phonopy_link.get_equivalent_q_points_by_symmetry': equivalent}
        for symmetry in (True, False):
            def setup_q(I):
                w = QWorld(I, power_spectra_algorithm=P(alg), use_symmetry=symmetry)
                return [w.qp], {}

            def star(f):
                if not symmetry:
                    return f(T.app('q', [L1]))
                s = T.fresh('s')
                return T.sum_range(s, 0, NQ, f(T.app('star', [s, L1]))) / NQ

            def check_w(ob, I, o):
                i, k = T.fresh('i'), T.fresh('k')
                want = Arr((NF,), star(lambda q: T.sigma([i, k], [i, A - 1 - i, k, Dm - 1 - k], S(T.app('freq', [D(0)]), vc(q, L0, i, k), N))))
                ob('sum over the primitive atoms and coordinates', o.value, want)
                ob('the wave vector stays selected', I.arr(I.getattr(I.w.par, 'reduced_q_vector')), arr('q', (Dm,)))
                ob('a second request', again(I, QP + '.get_power_spectrum_wave_vector', I.w.qp), want)

            def check_m(ob, I, o):
                want = Arr((NF, NB), star(lambda q: S(T.app('freq', [D(0)]), vq(q, L0, D(1)), N)))
                ob('one column per mode', o.value, want)
                ob('the wave vector stays selected', I.arr(I.getattr(I.w.par, 'reduced_q_vector')), arr('q', (Dm,)))
                ob('a second request', again(I, QP + '.get_power_spectrum_phonon', I.w.qp), want)
            sym = ', symmetry' if symmetry else ''
            E.function('wave vector, algorithm %d%s' % (alg, sym), QP + '.get_power_spectrum_wave_vector', setup_q, check_w, contracts=dict(base(alg), **more), facts=FACTS_ + [NQ - 1, NB - 1])
            E.function('phonon, algorithm %d%s' % (alg, sym), QP + '.get_power_spectrum_phonon', setup_q, check_m, contracts=dict(base(alg), **more), facts=FACTS_ + [NQ - 1, NB - 1])
    E.trust('get_vc and get_vq return the projections at the selected wave vector (C07, C08, C14); equivalent wave vectors are what get_equivalent_q_points_by_symmetry says',
            'no spectrum contains NaN')


NQ = size('NQ')
