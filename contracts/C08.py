"""Contracts of C08: projection onto phonon modes."""
from contracts.phon import *
from contracts import quasi
import itertools

LEVEL = 'proof'
TECHNIQUE = 'contracts on the real Python source, symbolic execution with inductive loop summaries, term normal form and z3; bounded replay on the real code'
NOTE = 'project_onto_phonon, the arrangement of the eigenvectors of phonopy by modes, atoms and coordinates, and the requests of a Quasiparticle object in any order proved for all sizes and values; phonopy itself is trusted and checked by bounded cases'

F_ = size('F')


def obligations(E):
    def setup(I):
        return [I.mk(arr('vc', (N, A, Dm), 'c')), I.mk(arr('ev', (F_, A, Dm), 'c'))], {}

    def check(ob, I, o):
        j, k = T.fresh('j'), T.fresh('k')
        e = T.sum_range(j, 0, A, T.sum_range(k, 0, Dm, T.app('vc', [D(0), j, k], 'c') * T.conj(T.app('ev', [D(1), j, k], 'c'))))
        ob('result[t, k] = sum_j,x vc[t, j, x] conj(ev[k, j, x])', o.value, Arr((N, F_), e))
    for fn in ('project_onto_phonon', 'project_onto_phonon2'):
        E.function(fn, 'dynaphopy.projection.' + fn, setup, check, facts=SIZES + [F_ - 1])

    # ---------------------------------------------------------------- eigenvectors of phonopy
    def phonopy(I, self, q):
        k = key(I, self)
        s = [I.arr(q).at(P(x)) for x in range(3)]
        return (I.mk(Arr((3 * A,), T.app('nu' + k, [D(0)] + s))), I.mk(Arr((3 * A, 3 * A), T.app('u' + k, [D(0), D(1)] + s, 'c'), 'c')))
    q3 = [T.app('q', [P(x)]) for x in range(3)]

    def modes(I):
        k = key(I, reference(I, False))
        return (Arr((3 * A, A, P(3)), T.app('u' + k, [3 * D(1) + D(2), D(0)] + q3, 'c')), Arr((3 * A,), T.app('nu' + k, [D(0)] + q3)))

    def harmonic(I, structure, **kw):
        o = phonon(I, structure, **kw)
        if kw.get('setup_forces', True):
            I.set_field(o, 'force_constants', I.w.hfc)
        return o
    base = dict(contracts(**{PL + 'get_phonon': harmonic, PH + '.get_frequencies_with_eigenvectors': phonopy}))
    for printed in (True, False):
        def setup(I, printed=printed):
            w = PWorld(I)
            w.q = I.mk(arr('q', (3,)))
            return [w.structure, w.q], {'print_data': printed}

        def check(ob, I, o):
            ev, nu = I.items(o.value)
            e, f = modes(I)
            ob('eigenvectors by mode, atom and coordinate', ev, e)
            ob('frequencies', nu, f)
        E.function('obtain_eigenvectors_and_frequencies%s' % (', printed' if printed else ''), PL + 'obtain_eigenvectors_and_frequencies', setup, check,
                   contracts=base, facts=SIZES)

    # ---------------------------------------------------------------- requests of a Quasiparticle object, in any order
    class W8(PWorld, quasi.QWorld):
        def __init__(self, I):
            PWorld.__init__(self, I)
            for n in ('psup', 'hfc', 'gsup', 'garr'):
                setattr(I, '_' + n, getattr(self, n))
            quasi.QWorld.__init__(self, I, dim=P(3), silent=False)
            for n in ('psup', 'hfc', 'gsup', 'garr'):
                setattr(self, n, getattr(I, '_' + n))

    def eigen(I, structure, q, *a, **k):
        """Contract of obtain_eigenvectors_and_frequencies, discharged above."""
        if not (isinstance(structure, Obj) and structure.cid == I.w.structure.cid):
            raise Undecided('modes of another structure')
        s = [I.arr(q).at(P(x)) for x in range(3)]
        return (I.mk(Arr((3 * A, A, P(3)), T.app('ev', [D(0), D(1), D(2)] + s, 'c'), 'c')), I.mk(Arr((3 * A,), T.app('nu', [D(0)] + s))))

    def modal(I, vc, ev):
        """Contract of project_onto_phonon, discharged above."""
        a, b = I.arr(vc), I.arr(ev)
        j, k = T.fresh('j'), T.fresh('k')
        e = T.sum_range(j, 0, A, T.sum_range(k, 0, 3, a.at(D(0), j, k) * T.conj(b.at(D(1), j, k))))
        return I.mk(Arr((a.shape[0], b.shape[0]), e, 'c'))
    more = quasi.contracts(**{PL + 'obtain_eigenvectors_and_frequencies': eigen, 'dynaphopy.projection.project_onto_phonon': modal,
                              QP + '.get_vc': lambda I, self: I.mk(arr('vc', (N, A, 3), 'c'))})
    names = ('get_eigenvectors', 'get_frequencies', 'get_vq')
    for order in [(a, b) for a in names for b in (None,) + names]:
        def setup(I, order=order):
            w = W8(I)

            def before():
                if order[1]:
                    I.call(I.getattr(w.qp, order[1]), [], {})
            I.before = before
            return [w.qp], {}

        def check(ob, I, o, order=order):
            j, k = T.fresh('j'), T.fresh('k')
            ev = lambda *a: T.app('ev', list(a) + q3, 'c')
            want = {'get_eigenvectors': Arr((3 * A, A, P(3)), ev(D(0), D(1), D(2))), 'get_frequencies': Arr((3 * A,), T.app('nu', [D(0)] + q3)),
                    'get_vq': Arr((N, 3 * A), T.sum_range(j, 0, A, T.sum_range(k, 0, 3, T.app('vc', [D(0), j, k], 'c') * T.conj(ev(D(1), j, k)))))}
            ob('of the modes at the selected wave vector', o.value, want[order[0]])
        E.function('%s%s' % (order[0], ' after %s' % order[1] if order[1] else ''), QP + '.' + order[0], setup, check, contracts=more, facts=SIZES)
    E.trust('phonopy: get_frequencies_with_eigenvectors returns ascending frequencies and eigenvectors in columns, atoms times three coordinates in rows (bounded check)')
