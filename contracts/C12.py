"""Contracts of C12: time step, velocities and mass weighting."""
from contracts.world import *

LEVEL = 'proof'
TECHNIQUE = 'contracts on the real Python source, symbolic execution with inductive loop summaries, term normal form and z3; bounded replay on the real code'
NOTE = 'velocity, get_velocity_mass_average and get_time_step_average proved for all sizes and values'


def obligations(E):
    t = lambda i: T.app('time', [i])
    c = structure_contracts()
    tc = lambda i: t(i)

    # ---- time step: the mean difference of consecutive times to 8 decimals
    def setup(I):
        w = World(I)
        w.time = I.mk(arr('time', (N,)))
        w.self = new_dynamics(I, time=w.time, structure=w.structure)
        return [w.self], {}

    def check(ob, I, o):
        i = T.fresh('i')
        e = T.rnd(T.sum_range(i, 0, N - 1, t(i + 1) - t(i)) / (N - 1) * 10 ** 8) / 10 ** 8
        ob('mean difference of consecutive times, to 8 decimals', o.value, e)
        ob('a second request', again(I, DYN + '.get_time_step_average', I.w.self), e)
    E.function('get_time_step_average', DYN + '.get_time_step_average', setup, check, contracts=c, facts=SIZES + [N - 2])

    # ---- mass weighted velocities
    for memmap in (False, True):
        for sort in 'cr':
            def setup(I):
                w = World(I)
                w.vel = I.mk(arr('v', (N, M, Dm), sort))
                w.self = new_dynamics(I, velocity=w.vel, memmap=memmap, structure=w.structure)
                return [w.self], {}

            def check(ob, I, o):
                e = Arr((N, M, Dm), T.app('v', [D(0), D(1), D(2)], sort) * T.sqrt(T.app('mass', [D(1)], nn=True)))
                ob('velocity times the square root of the mass of the same atom', o.value, e)
                ob('a second request', again(I, DYN + '.get_velocity_mass_average', I.w.self), e)
                ob('the velocities stay', I.getattr(I.w.self, 'velocity'), I.w.vel)
            cc = dict(c)
            cc.update({DYN + '.get_supercell_matrix': lambda I, self, tolerance=None: I.w.sup, DYN + '.get_number_of_atoms': const(M)})
            E.function('get_velocity_mass_average, %s%s' % ('complex' if sort == 'c' else 'real', ', memory mapped' if memmap else ''),
                       DYN + '.get_velocity_mass_average', setup, check, contracts=cc, facts=SIZES)

    # ---- velocities derived from the displacements
    for memmap in (False, True):
        def setup(I):
            w = World(I)
            w.disp = I.mk(arr('d', (N, M, Dm), 'c'))
            w.self = new_dynamics(I, memmap=memmap, structure=w.structure)
            return [w.self], {}

        def check(ob, I, o):
            d = lambda n: T.app('d', [n, D(1), D(2)], 'c')
            h = T.var('dt')
            e = T.ite(T.eq(D(0), 0), (d(D(0) + 1) - d(D(0))) / h,
                      T.ite(T.eq(D(0), N - 1), (d(D(0)) - d(D(0) - 1)) / h, (d(D(0) + 1) - d(D(0) - 1)) / (2 * h)))
            ob('central difference of the displacements', o.value, Arr((N, M, Dm), e))
            ob('a second request', again(I, 'get:' + DYN + '.velocity', I.w.self), Arr((N, M, Dm), e))
        cc = dict(c)
        cc.update({DYN + '.get_relative_trajectory': lambda I, self: I.w.disp, DYN + '.get_number_of_atoms': const(M),
                   DYN + '.get_time_step_average': const(T.var('dt'))})
        E.function('velocity, derived%s' % (', memory mapped' if memmap else ''), 'get:' + DYN + '.velocity', setup, check, contracts=cc,
                   facts=SIZES + [N - 2])

    def setup(I):
        w = World(I)
        w.vel = I.mk(arr('v', (N, M, Dm), 'c'))
        w.self = new_dynamics(I, velocity=w.vel, structure=w.structure)
        return [w.self], {}

    def check(ob, I, o):
        ob('given velocities are used as they are', o.value, I.w.vel)
    E.function('velocity, given', 'get:' + DYN + '.velocity', setup, check, contracts=c, facts=SIZES)
    E.trust('numpy.memmap of mode w+ is an array of zeros')
