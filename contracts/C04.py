"""Contracts of C04: memory safety and schedule independence of the kernels."""
from contracts.world import *
from contracts.ckernels import *
from contracts import burg, C01

LEVEL = 'proof'
TECHNIQUE = 'safety obligations (bounds, release, references, independent iterations) of the C kernels (clang syntax tree, symbolic execution with inductive loop summaries, z3); bounded replay with sanitizers'
NOTE = 'every access, allocation and parallel loop of the three files for all lengths; displacements for cells of 1, 2 and 3 dimensions; malloc succeeds, machine integers do not overflow'


def obligations(E):
    def safe(setup, owned=None):
        def g(I):
            I.safety = True
            I.owned = owned
            return setup(I)
        return g

    nothing = lambda ob, I, o: None

    def mine(I, o):
        """The returned table of rows belongs to the caller."""
        keep = {o.value.cid}
        d = I.heap[o.value.cid]
        keep |= {v.cid for k, v in d.items() if k != '$n'}
        return keep

    # ---------------------------------------------------------------- displacements
    for n in (1, 2, 3):
        E.function('Determinant, %d' % n, CQual('displacements', 'Determinant'), safe(lambda I: ([C01.matrix(I, 'a', n), P(n)], {})), nothing)
        E.function('matrix_inverse, %d' % n, CQual('displacements', 'matrix_inverse'), safe(lambda I: ([C01.matrix(I, 'a', n), P(n)], {}), mine), nothing)

        def setup_k(I):
            I.pyargs = {'trajectory': I.input_array('trajectory', arr('traj', (NS, n), 'c'), '_Complex double'),
                        'positions': I.input_array('positions', arr('pos', (n,)), 'double'),
                        'cell': I.input_array('cell', arr('cell', (n, n)), 'double')}
            return [Opaque('self'), Opaque('args'), Opaque('keywords')], {}
        E.function('atomic_displacements, %d' % n, CQual('displacements', 'atomic_displacements'), safe(setup_k), nothing, facts=[NS])

    # ---------------------------------------------------------------- direct spectrum
    for method, name in ((1, 'rectangular'), (0, 'trapezoid')):
        E.function('EvaluateCorrelation, ' + name, CQual('correlation', 'EvaluateCorrelation'),
                   safe(lambda I: ([T.var('w'), I.block(V, 'c', '_Complex double'), NS, DT, INC, P(method)], {})), nothing, facts=CFACTS)

        def setup_p(I):
            I.pyargs = {'frequency': I.input_array('frequency', FREQ, 'double'), 'velocity': I.input_array('velocity', V, '_Complex double'),
                        'time_step': DT, 'step': INC, 'integration_method': P(method)}
            return [Opaque('self'), Opaque('args'), Opaque('keywords')], {}
        E.function('correlation_par, ' + name, CQual('correlation', 'correlation_par'), safe(setup_p), nothing, facts=CFACTS)

    # ---------------------------------------------------------------- maximum entropy
    E.function('FrequencyEvaluation', CQual('mem', 'FrequencyEvaluation'),
               safe(lambda I: ([T.var('delta'), I.block(arr('coef', (MC + 1,)), 'r', 'double'), MC, T.var('p')], {})), nothing, facts=CFACTS)

    def setup_g(I):
        I.invariants.append(burg.orders([], lambda v: []))        # no place of memory depends on the values
        return [I.block(arr('x', (NS,)), 'r', 'double'), NS, MC, I.block(arr('cin', (MC + 1,)), 'r', 'double')], {}
    E.function('GetCoefficients', CQual('mem', 'GetCoefficients'), safe(setup_g), nothing, facts=CFACTS, frame=False)

    def coefficients(I, node, data, n, m, coef):
        I.vc('read in bounds', node, [I.heap[data.cid].shape[0] - n - data.off, data.off, n], 'the samples given to the recursion')
        I.vc('write in bounds', node, [I.heap[coef.cid].shape[0] - m - 1 - coef.off, coef.off, m], 'the coefficients given to the recursion')
        c = I.heap[coef.cid]
        I.heap[coef.cid] = Arr(c.shape, T.app('H#%d' % next(T._fresh), [D(0)]), c.dtype)
        return T.fresh('h', 'r')

    def setup_m(I):
        I.pyargs = {'frequency': I.input_array('frequency', FREQ, 'double'), 'velocity': I.input_array('velocity', V, '_Complex double'),
                    'time_step': DT, 'coefficients': MC}
        I.contracts['GetCoefficients'] = coefficients
        return [Opaque('self'), Opaque('args'), Opaque('keywords')], {}
    E.function('MaximumEntropyMethod', CQual('mem', 'MaximumEntropyMethod'), safe(setup_m), nothing, facts=CFACTS)
    E.trust(*C_TRUST)
