"""Contracts of C13: cropping."""
from contracts.world import *

LEVEL = 'proof'
TECHNIQUE = 'contracts on the real Python source (object invariant over all cached states), symbolic execution with inductive loop summaries, term normal form and z3; bounded replay on the real code'
NOTE = 'crop_trajectory proved for all sizes, numbers of steps and cached states; every getter afterwards is compared with that of a new object made of the cropped data'
L = T.var('L', 'i')


L0, L1 = T.var('_l0', 'i', nn=True), T.var('_l1', 'i', nn=True)


def displacement(I, traj, pos, cell):
    """Contract of atomic_displacements (C03): every step and atom on its own; here any function of the row, the position and the cell."""
    t, p, c = I.arr(traj), I.arr(pos), I.arr(cell)
    return I.mk(Arr(t.shape, displaced(lambda k: t.at(D(0), k), p.at, c.at, D(1)), 'f'))


def displaced(row, x, cell, k):
    return T.fun('displacement', row(L0), x(L0), cell(L0, L1), k, sort='r')


def dyn_contracts(**extra):
    c = structure_contracts(**{'dynaphopy.displacements.atomic_displacements': displacement,
                               'numpy.unique': unique, 'numpy.linalg.inv': any_inverse})
    c.update({DYN + '.get_supercell_matrix': lambda I, self, tolerance=None: I.w.sup, DYN + '.get_number_of_atoms': const(M)})
    c.update(extra)
    return c


def any_inverse(I, x):
    a = I.arr(x)
    return I.mk(Arr(a.shape, T.fun('inverse', a.at(L0, L1), D(0), D(1)), 'f'))


def unique(I, x, return_counts=False, return_index=False, return_inverse=False):
    """numpy.unique of atom types: all the types 0..A-1 occur; counts[a] is the number of entries a."""
    if return_index or return_inverse or not return_counts:
        raise Undecided('numpy.unique')
    a = I.arr(x)
    j = T.fresh('j')
    n = I.mk(Arr((A,), T.sum_range(j, 0, a.shape[0], T.eq(a.at(j), D(0))), 'i'))
    return (I.mk(Arr((A,), D(0), 'i')), n)


STALE = ('_time_step_average', '_velocity_mass_average', '_relative_trajectory', '_mean_displacement_matrix')
FACTS_ = SIZES + [N - 2]
DATA = {'trajectory': ('trajectory',), 'scaled positions': ('scaled_trajectory',), 'velocities': ('velocity',),
        'trajectory and velocities': ('trajectory', 'velocity'), 'scaled positions and velocities': ('scaled_trajectory', 'velocity'),
        'scaled positions with the trajectory requested': ('scaled_trajectory', 'requested')}


def content(name, first, n):
    """The steps first.. of the given data."""
    i = first + D(0)
    return {'trajectory': Arr((n, M, Dm), T.app('t', [i, D(1), D(2)])), 'scaled_trajectory': Arr((n, M, Dm), T.app('s', [i, D(1), D(2)])),
            'velocity': Arr((n, M, Dm), T.app('v', [i, D(1), D(2)], 'c')), 'time': Arr((n,), T.app('time', [i])), 'energy': Arr((n,), T.app('energy', [i]))}[name]


def obligations(E):
    kept = L

    def make(I, names, memmap, first, n, **over):
        w = I.w
        kw = {k: I.mk(content(k, first, n)) for k in names + ('time', 'energy') if k != 'requested'}
        kw.update(over)
        return new_dynamics(I, structure=w.structure, supercell=w.scell, memmap=memmap, **kw)

    def setup(names, memmap, stale, arg):
        def g(I):
            w = World(I)
            w.self = make(I, names, memmap, T.ZERO, N)
            if 'requested' in names:
                I.getattr(w.self, 'trajectory')
            if stale:
                if 'scaled_trajectory' in names:
                    I.getattr(w.self, 'trajectory')
                pos = 'trajectory' in names or 'scaled_trajectory' in names
                st = {'_velocity_mass_average': I.mk(arr('stale1', (N, M, Dm), 'c')), '_time_step_average': T.var('stale2')}
                if pos:
                    st['_relative_trajectory'] = I.mk(arr('stale3', (N, M, Dm)))
                    st['_mean_displacement_matrix'] = I.mk(arr('stale4', (A, Dm, Dm)))
                    st['_mean_displacement_average'] = False
                for k, v in st.items():
                    if k not in I.heap[w.self.cid]:
                        raise Undecided('Dynamics has no field ' + k)
                    I.set_field(w.self, k, v)
            w.before = dict(I.heap[w.self.cid])
            return [w.self, arg], {}
        return g

    def check(names, memmap, stale):
        def g(ob, I, o):
            w = I.w
            me = w.self
            over = {}
            if 'velocity' not in names and not memmap:
                # derived velocities: those of the whole trajectory, then cropped
                pass
            first = N - kept
            for k in names:
                if k in ('velocity',):
                    ob('velocity', I.getattr(me, 'velocity'), content('velocity', first, kept))
                elif k == 'trajectory':
                    ob('trajectory', I.getattr(me, 'trajectory'), content('trajectory', first, kept))
            if 'scaled_trajectory' in names:
                j = T.fresh('j')
                ob('trajectory', I.getattr(me, 'trajectory'),
                   Arr((kept, M, Dm), T.sum_range(j, 0, Dm, T.app('s', [first + D(0), D(1), j]) * T.app('scell', [j, D(2)]))))
            if 'velocity' not in names:
                old = (lambda i: T.app('stale3', [i, D(1), D(2)])) if stale else None
                if old is None:
                    def old(i):
                        if 'trajectory' in names:
                            row = lambda k: T.app('t', [i, D(1), P(k)])
                        else:
                            q = T.fresh('q')
                            row = lambda k: T.sum_range(q, 0, Dm, T.app('s', [i, D(1), q]) * T.app('scell', [q, P(k)]))
                        return displaced(row, lambda k: T.app('x', [D(1), P(k)]), lambda i, j: T.app('scell', [P(i), P(j)]), D(2))
                i = first + D(0)
                h = T.var('dt')
                e = T.ite(T.eq(i, 0), (old(P(1)) - old(P(0))) / h, T.ite(T.eq(i, N - 1), (old(N - 1) - old(N - 2)) / h, (old(i + 1) - old(i - 1)) / (2 * h)))
                ob('velocity', I.getattr(me, 'velocity'), Arr((kept, M, Dm), e))
                over['velocity'] = I.mk(Arr((kept, M, Dm), T.app('w', [D(0), D(1), D(2)], 'c')))
                I.set_field(me, '_velocity', over['velocity'])
            ob('time', I.call(I.getattr(me, 'get_time'), [], {}), content('time', first, kept))
            ob('energy', I.call(I.getattr(me, 'get_energy'), [], {}), content('energy', first, kept))
            # everything derived is that of a new object with the cropped data
            I.trusting = True
            ref = make(I, names, memmap, first, kept, **over)
            for q in ('get_velocity_mass_average', 'get_time_step_average') + (
                    ('get_relative_trajectory', 'get_mean_displacement_matrix', 'average_positions') if set(names) & {'trajectory', 'scaled_trajectory'} else ()):
                c = dict(I.contracts)
                I.contracts = {k: v for k, v in c.items() if k != DYN + '.get_time_step_average'}
                try:
                    for args in ([], [True]) if q == 'get_mean_displacement_matrix' else ([],):
                        a = I.freeze(I.call(I.getattr(me, q), args, {}))
                        b = I.freeze(I.call(I.getattr(ref, q), args, {}))
                        if q == 'get_relative_trajectory':
                            # proved equal above; a name for it from here on
                            r = I.mk(arr('r', (kept, M, Dm)))
                            I.set_field(me, '_relative_trajectory', r)
                            I.set_field(ref, '_relative_trajectory', r)
                        ob(q + ('(True)' if args else '') + ' as of a new object', a, b)
                finally:
                    I.contracts = c
        return g
    for title, names in DATA.items():
        for memmap in (False, True):
            for stale in (False, True):
                if stale and memmap:
                    continue
                c = dyn_contracts(**{DYN + '.get_time_step_average': const(T.var('dt'))})
                if not stale:
                    pass
                for more in (False, True):
                    kept = N if more else L
                    E.function('crop_trajectory, %s%s%s%s' % (title, ', memory mapped' if memmap else '', ', derived data requested before' if stale else '',
                                                              ', more steps than there are' if more else ''),
                               DYN + '.crop_trajectory', setup(names, memmap, stale, L), check(names, memmap, stale),
                               contracts=c, facts=FACTS_ + [L - 1, (L - 1 - N) if more else (N - L)])

    def unchanged(ob, I, o):
        for k, v in I.w.before.items():
            ob('field %s unchanged' % k, I.field(I.w.self, k), v)
    for title, arg, f in (('None', None, []), ('a non-positive number', L, [-L])):
        for stale in (False, True):
            E.function('crop_trajectory to %s%s' % (title, ', derived data requested before' if stale else ''), DYN + '.crop_trajectory',
                       setup(('trajectory', 'velocity'), False, stale, arg), unchanged, contracts=dyn_contracts(), facts=FACTS_ + f)
    E.trust('atomic_displacements treats every step and atom on its own (proved under C03)',
            'numpy.unique of the atom types returns all the types 0..A-1 and how often each occurs')
