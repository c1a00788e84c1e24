"""Contracts of C03: the direct Fourier spectrum."""
from contracts.world import *
from contracts.ckernels import *

LEVEL = 'proof'
TECHNIQUE = 'contracts on the C kernel (clang syntax tree, symbolic execution with inductive loop summaries, term normal form and z3); bounded replay on the real code'
NOTE = 'EvaluateCorrelation and correlation_par proved for every signal, length, step, time step and list of frequencies; arithmetic is exact'


def spectrum(v, n, dt, inc, w, method):
    """Sum over lags and starts as stated by the property; w is the angular frequency."""
    k, j = T.fresh('k'), T.fresh('j')
    lag = k * inc
    lags = T.floor((n + inc - 1) / inc)
    term = lambda l: T.conj(v(j)) * v(j + l) * T.exp(T.I * w * l * dt)
    body = term(lag) * 2 if method == 1 else term(lag) + term(lag + inc)
    total = T.sigma([k, j], [k, lags - 1 - k, j, n - lag - inc - 1 - j], body)
    return T.re(total) * dt / T.floordiv(n, inc)


def obligations(E):
    for method, name in ((1, 'rectangular'), (0, 'trapezoid')):
        def setup_e(I):
            v = I.block(V, 'c', '_Complex double')
            return [T.var('w'), v, NS, DT, INC, P(method)], {}

        def check_e(ob, I, o):
            ob('the stated sum', o.value, spectrum(velocity, NS, DT, INC, T.var('w'), method))
        E.function('one frequency, ' + name, CQual('correlation', 'EvaluateCorrelation'), setup_e, check_e, facts=CFACTS)

        def setup_p(I):
            I.pyargs = {'frequency': I.input_array('frequency', FREQ, 'double'), 'velocity': I.input_array('velocity', V, '_Complex double'),
                        'time_step': DT, 'step': INC, 'integration_method': P(method)}
            return [Opaque('self'), Opaque('args'), Opaque('keywords')], {}

        def check_p(ob, I, o):
            ob('every frequency on its own', result(I, o, 1), Arr((NF,), spectrum(velocity, NS, DT, INC, 2 * T.PI * T.app('freq', [D(0)]), method)))
        E.function('all frequencies, ' + name, CQual('correlation', 'correlation_par'), setup_p, check_p, facts=CFACTS)

    def setup_d(I):
        I.pyargs = {'frequency': I.input_array('frequency', FREQ, 'double'), 'velocity': I.input_array('velocity', V, '_Complex double'), 'time_step': DT}
        return [Opaque('self'), Opaque('args'), Opaque('keywords')], {}

    def check_d(ob, I, o):
        ob('step 10 and the rectangular rule by default', result(I, o, 1), Arr((NF,), spectrum(velocity, NS, DT, P(10), 2 * T.PI * T.app('freq', [D(0)]), 1)))
    E.function('default arguments', CQual('correlation', 'correlation_par'), setup_d, check_d, facts=CFACTS)

    # the function of the package
    for method in (1, 0):
        def kernel(I, freq, v, dt, step=None, integration_method=None):
            need(I, 'the time step', dt, DT)
            need(I, 'the correlation step', step, INC)
            need(I, 'the integration method', integration_method, P(method))
            if I.arr(freq).expr != T.app('freq', [D(0)]):
                raise Undecided('other frequencies')
            return I.mk(Arr((NF,), T.app('S', [D(0), column(I, v)])))
        columns(E, 'get_fourier_direct_power_spectra, method %d' % method, 'dynaphopy.power_spectrum.get_fourier_direct_power_spectra',
                {'dynaphopy.power_spectrum.correlation.correlation_par': kernel}, {'correlation_function_step': INC, 'integration_method': P(method)})
    E.trust(*C_TRUST)
