"""Contracts of C14: results never depend on earlier requests or settings."""
from contracts.quasi import *
import itertools

LEVEL = 'proof'
TECHNIQUE = 'contracts on the real Python source (object invariant: every remembered result is that of the present settings), symbolic execution, term normal form and z3; bounded replay on the real code'
NOTE = 'every setter after every request, for all crystals, settings and values; with symmetry for stars of two wave vectors; what phonopy and the kernels compute is any function of what they are given'
L0 = T.var('_l0', 'i', nn=True)
D3 = P(3)
KEEP = T.var('keep', 'i', nn=True)
_B = T.var('b', 'i', nn=True)
COUNT = lambda t: T.sum_range(_B, P(0), M, T.bracket_eq(T.app('ty', [_B], 'i', nn=True) - t))
TYPE, NEWTYPE = T.var('type', 'i', nn=True), T.var('newtype', 'i', nn=True)
FACTS_ = SIZES + [N - 2, NF - 2, NB - 1, A - 1 - TYPE, COUNT(TYPE) - 1, KEEP - 1]


def steps(I):
    return I.ghost.get('steps', N)


def qv(I, q):
    a = I.arr(q)
    if a.ndim != 1 or a.shape[0].const() != 3:
        raise Undecided('wave vector')
    return [a.at(k) for k in range(3)]


def phonons(I, structure, q, *a, **k):
    s = qv(I, q)
    return (I.mk(Arr((NB, A, D3), T.app('ev', [D(0), D(1), D(2)] + s, 'c'), 'c')), I.mk(Arr((NB,), T.app('nu', [D(0)] + s))))


def projection(I, dyn, q, project_on_atom=-1):
    n = steps(I)
    return I.mk(Arr((n, A, D3), T.app('vc', [D(0), D(1), D(2), P(project_on_atom), n] + qv(I, q), 'c'), 'c'))


def mode_projection(I, vc, ev):
    a, b = I.arr(vc), I.arr(ev)
    return I.mk(Arr((a.shape[0], b.shape[0]), T.fun('modes', a.at(D(0), L0, T.var('_l1', 'i', nn=True)), b.at(D(1), L0, T.var('_l1', 'i', nn=True)), sort='c'), 'c'))


def spectra14(alg):
    def g(I, vq, trajectory, parameters):
        a = I.arr(vq)
        f = I.arr(I.getattr(parameters, 'frequency_range'))
        more = [P(alg), steps(I)] + [P(I.getattr(parameters, x)) for x in
                                     {0: ('correlation_function_step', 'integration_method'), 1: ('number_of_coefficients_mem',), 2: ('zero_padding',), 3: ()}[alg]]
        return I.mk(Arr((f.shape[0], a.shape[1]), T.fun('S%d' % alg, f.at(D(0)), a.shape[0], a.at(L0, D(1)), *more), 'f'))
    return g


def star(I, q, structure):
    s = qv(I, q)
    return I.new_list([I.mk(Arr((D3,), sum((T.bracket_eq(D(0) - k) * T.app('star', [P(i), P(k)] + s) for k in range(3)), T.ZERO))) for i in range(2)])


def crop(I, self, n):
    if n is None:
        return None
    old = steps(I)
    I.ghost['steps'] = I.num(n)
    return None


def vel(I, self):
    n = steps(I)
    return I.mk(Arr((n, M, D3), T.app('vm', [D(0), D(1), D(2), n], 'c'), 'c'))


def base():
    c = contracts(**{
        DYN + '.crop_trajectory': crop,
        DYN + '.velocity': prop(lambda I: I.mk(Arr((steps(I), M, D3), T.app('v', [D(0), D(1), D(2), steps(I)], 'c'), 'c'))),
        DYN + '.get_velocity_mass_average': vel,
        DYN + '.get_supercell_matrix': lambda I, self, tolerance=None: I.w.sup,
        QP + '.check_commensurate': lambda I, self, q, decimals=4: True,
        QP + '.get_q_vector': lambda I, self: I.mk(I.arr(I.getattr(I.getattr(self, 'parameters'), 'reduced_q_vector'))),
        STRUCT + '.get_atomic_elements': lambda I, self, supercell=None, unique=False: Opaque('elements'),
        STRUCT + '.get_supercell_phonon': lambda I, self: Opaque('some:supercell'),
        'dynaphopy.interface.phonopy_link.obtain_eigenvectors_and_frequencies': phonons,
        'dynaphopy.interface.phonopy_link.get_equivalent_q_points_by_symmetry': star,
        'dynaphopy.interface.phonopy_link.get_force_constants_from_file': lambda I, name, fc_supercell=None: Opaque('some:qha'),
        'dynaphopy.projection.project_onto_wave_vector': projection,
        'dynaphopy.projection.project_onto_phonon': mode_projection,
        'numpy.array_equiv': lambda I, a, b: mkbool(T.bracket_eq(T.var('same_range', 'i', nn=True) - 1))})
    for alg in range(4):
        c['dynaphopy.power_spectrum.' + FUNCTIONS_[alg]] = spectra14(alg)
    return c


GETTERS = {'get_vc': [()], 'get_vq': [()], 'get_eigenvectors': [()], 'get_frequencies': [()], 'get_power_spectrum_full': [(), (P(1),)],
           'get_power_spectrum_partials': [()], 'get_power_spectrum_wave_vector': [()], 'get_power_spectrum_phonon': [()]}
# what the renormalisation is made of, and what it is remembered in
SPECTRAL = ('frequency_range', 'power_spectra_algorithm', 'number_of_coefficients_mem', 'project_on_atom', 'fitting_function', 'zero_padding', 'correlation_function_step', 'integration_method', 'use_symmetry')
REMEMBERED = {'_commensurate_points_data': SPECTRAL, '_renormalized_force_constants': SPECTRAL, '_bands': ('use_NAC', 'band_ranges', 'band_resolution')}


def request(I, qp, name, args):
    return I.call(I.getattr(qp, name), list(args), {})


def obligations(E):
    real = lambda n: T.var(n)
    point = lambda I: I.mk(Arr((D3,), sum((T.bracket_eq(D(0) - k) * T.app('p', [P(k)]) for k in range(3)), T.ZERO)))
    setters = {'set_number_of_mem_coefficients': lambda I: [size('newcoef')],
               'set_projection_onto_atom_type': lambda I: [NEWTYPE],
               'set_frequency_limits': lambda I: [I.new_list([real('lo'), real('hi')])],
               'set_spectra_resolution': lambda I: [real('newres')],
               'set_reduced_q_vector': lambda I: [point(I)],
               'select_power_spectra_algorithm': None,
               'crop_trajectory': lambda I: [KEEP],
               'select_fitting_function': None,
               'set_NAC': lambda I: [True],
               'set_band_ranges': lambda I: [DictRef(I.new({'ranges': Opaque('some:ranges')}))],
               'set_qha_force_constants': lambda I: ['file']}
    variants = []
    for s, a in setters.items():
        if s == 'select_power_spectra_algorithm':
            variants += [(s, (lambda I, b=b: [P(b)]), a0, 'from %d to %d' % (a0, b)) for a0 in range(4) for b in range(4) if b in ((a0 + 1) % 4, a0)]
        elif s == 'select_fitting_function':
            variants += [(s, (lambda I, b=b: [P(b)]), 1, 'to %d' % b) for b in (0, 1)]
        elif s == 'set_projection_onto_atom_type':
            variants += [(s, a, 1, ''), (s, a, 1, 'that does not exist')]
        else:
            variants.append((s, a, 1, ''))
    for (s, a, alg, text), atom, symmetry in itertools.product(variants, (P(-1), TYPE), (False, True)):
        if (symmetry or atom is TYPE) and s in ('set_NAC', 'set_band_ranges', 'set_qha_force_constants', 'select_fitting_function'):
            continue

        def setup(I, a=a, alg=alg, atom=atom, symmetry=symmetry):
            I.ghost['steps'] = N
            w = QWorld(I, dim=D3, power_spectra_algorithm=P(alg), project_on_atom=atom, use_symmetry=symmetry, silent=False,
                       number_of_coefficients_mem=size('coef'), spectrum_resolution=T.var('res'),
                       reduced_q_vector=I.mk(Arr((D3,), sum((T.bracket_eq(D(0) - k) * T.app('q', [P(k)]) for k in range(3)), T.ZERO))))
            args = a(I)

            def before():
                for n in ('_commensurate_points_data', '_renormalized_force_constants', '_bands'):
                    if n not in I.heap[w.qp.cid]:
                        raise Undecided('Quasiparticle has no field ' + n)
                for g, forms in GETTERS.items():
                    for f in forms:
                        request(I, w.qp, g, f)
                for n in ('_commensurate_points_data', '_renormalized_force_constants', '_bands'):
                    I.set_field(w.qp, n, Opaque('some:old ' + n))
                I.ghost['settings'] = {k[1:]: I.freeze(v) for k, v in I.heap[w.par.cid].items()}
                I.ghost['before'] = steps(I)
            I.before = before
            return [w.qp] + args, {}

        def check(ob, I, o, s=s):
            w = I.w
            if o.kind == 'exit':
                ob('nothing is changed', all(unchanged(I, x, y) for x, y in ((I.ghost['settings'][k[1:]], I.freeze(v)) for k, v in I.heap[w.par.cid].items())), True)
                return
            now = {k[1:]: I.freeze(v) for k, v in I.heap[w.par.cid].items()}
            old = I.ghost['settings']
            changed = {k for k in now if k not in old or not unchanged(I, old[k], now[k], o.conds)}
            if steps(I) != I.ghost['before']:
                changed |= {'frequency_range'}
            for n, deps in REMEMBERED.items():
                v = I.field(w.qp, n)
                ob('%s is forgotten when a setting it depends on changes' % n, bool(v is None or not changed & set(deps)), True)
            if s == 'set_qha_force_constants':
                for n in ('_commensurate_points_data', '_renormalized_force_constants'):
                    ob('%s is forgotten' % n, I.field(w.qp, n) is None, True)
            for g, forms in GETTERS.items():
                for f in forms:
                    start = I.save()

                    def two():
                        x = I.freeze(request(I, w.qp, g, f))
                        I.restore_heap = None
                        new = I.construct(QP, I.class_info(QP), [w.dyn], {})
                        y = I.freeze(request(I, new, g, f))
                        return x, y
                    outs = I.explore(two)
                    for k, r in enumerate(outs):
                        I.restore(r.state)
                        if r.kind != 'next':
                            # both stop, or the path cannot be taken
                            continue
                        ob('%s%s as of a new object%s' % (g, '(%d)' % int(f[0].const()) if f else '', '' if len(outs) == 1 else ' (%d)' % k), r.value[0], r.value[1],
                           path=tuple(o.conds) + tuple(r.conds))
                    I.restore(start)
        E.function('%s%s%s%s' % (s, ' ' + text if text else '', ', one atom type' if atom is TYPE else '', ', symmetry' if symmetry else ''), QP + '.' + s, setup, check,
                   contracts=base(), facts=FACTS_ + ([NEWTYPE - A] if 'exist' in text else [A - 1 - NEWTYPE, COUNT(NEWTYPE) - 1]), outcome='exit' if 'exist' in text else 'next')
    E.trust('phonopy, the projections and the spectrum functions are functions of what they are given (C02, C03, C05, C07, C08)')


def unchanged(I, a, b, conds=()):
    if isinstance(a, Poly) and isinstance(b, Poly):
        return a == b or T.equal(a, b, (), tuple(conds))[0] == 'equal'
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.expr == b.expr and len(a.shape) == len(b.shape) and all(same_dim(x, y) for x, y in zip(a.shape, b.shape))
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a.name == b.name
    return type(a) is type(b) and I.vkey(a) == I.vkey(b)
