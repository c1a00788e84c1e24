"""Contracts of C02: the maximum entropy spectrum."""
from contracts.world import *
from contracts.ckernels import *
from contracts.burg import *
from dpv.deductive.invariant import same

LEVEL = 'proof'
TECHNIQUE = 'contracts on the C kernel (clang syntax tree, symbolic execution with a supplied loop invariant, term normal form and z3); bounded replay on the real code'
NOTE = 'the recursion proved for every signal, length and number of coefficients by an inductive invariant on the loop over orders; exact arithmetic'

COEF = arr('cin', (MC + 1,))


def all_poles(a, m, p, delta):
    """p / |1 - sum a_k exp(i k delta)|^2"""
    k = T.fresh('k')
    s = 1 - T.sigma([k], [k, m - 1 - k], a(k + 1) * T.exp(T.I * (k + 1) * delta))
    return p / (s * T.conj(s))


def obligations(E):
    # ---------------------------------------------------------------- evaluation at a frequency
    def setup_f(I):
        a = I.block(arr('coef', (MC + 1,)), 'r', 'double')
        return [T.var('delta'), a, MC, T.var('p')], {}

    def check_f(ob, I, o):
        ob('all poles', o.value, all_poles(lambda k: T.app('coef', [k]), MC, T.var('p'), T.var('delta')))
    E.function('one frequency', CQual('mem', 'FrequencyEvaluation'), setup_f, check_f, facts=CFACTS)

    # ---------------------------------------------------------------- the recursion
    def setup_g(I):
        I.seen = []
        I.invariants.append(orders(I.seen))
        I.coef = I.block(COEF, 'r', 'double')
        return [I.block(arr('x', (NS,)), 'r', 'double'), NS, MC, I.coef], {}

    def check_g(ob, I, o):
        found = I.seen[-1]
        left = o.state[5].get('left')
        if left is not None:
            # the recursion stops at the order left + 1
            ob('zero when the error vanishes', o.value, T.ZERO)
            E_den = T.absolute(den(left + 1))
            ob('stops only when the error vanishes', T.neg(T.bracket_ge(E_den - T.F(1, 10 ** 6))), T.ONE)
            return
        for n in found['next']:
            ob('goes on only when the error does not vanish', T.bracket_ge(T.absolute(den(found['index'] + 1)) - T.F(1, 10 ** 6)), T.ONE, path=n.conds)
        ob('power', o.value, PW(MC))
        c = I.heap[I.coef.cid]
        j = T.fresh('j')
        T.FACTS.extend([j - 1, MC - j])
        ob('coefficients', c.at(j), A(MC, j))
    E.function('recursion', CQual('mem', 'GetCoefficients'), setup_g, check_g, facts=CFACTS + [NS - 1, NS - 2 - MC], frame=False)

    # ---------------------------------------------------------------- the spectrum, by the contract of the recursion
    def coefficients(I, node, data, n, m, coef):
        """The recursion applied to the real or the imaginary part of the signal."""
        j = T.fresh('j')
        x = I.heap[data.cid].at(j)
        part = None
        for name, want in (('re', T.re(velocity(j))), ('im', T.im(velocity(j)))):
            if same(I, x, want, (j, NS - 1 - j)):
                part = name
        if part is None or n != NS or m != MC or data.off != T.ZERO or coef.off != T.ZERO:
            raise Undecided('the recursion is applied to something else')
        c = I.heap[coef.cid]
        inside = T.bracket_ge(D(0) - 1) * T.bracket_ge(MC - D(0))
        I.heap[coef.cid] = Arr(c.shape, inside * T.app('a_' + part, [D(0)]) + (T.ONE - inside) * c.expr, c.dtype)
        return T.var('P_' + part)

    def setup_m(I):
        I.pyargs = {'frequency': I.input_array('frequency', FREQ, 'double'), 'velocity': I.input_array('velocity', V, '_Complex double'),
                    'time_step': DT, 'coefficients': MC}
        I.contracts['GetCoefficients'] = coefficients
        return [Opaque('self'), Opaque('args'), Opaque('keywords')], {}

    def check_m(ob, I, o):
        w = 2 * T.PI * T.app('freq', [D(0)]) * DT
        total = T.ZERO
        for part in ('re', 'im'):
            p = T.var('P_' + part)
            total = total + (T.ONE - T.bracket_eq(p)) * all_poles(lambda k: T.app('a_' + part, [k]), MC, p, w)
        ob('both parts, every frequency on its own', result(I, o, 1), Arr((NF,), total * DT))
    E.function('spectrum', CQual('mem', 'MaximumEntropyMethod'), setup_m, check_m, facts=CFACTS)
    lemmas(E)

    # ---------------------------------------------------------------- the function of the package
    def kernel(I, freq, v, dt, coefficients=None):
        need(I, 'the time step', dt, DT)
        need(I, 'the number of coefficients', coefficients, MC)
        if I.arr(freq).expr != T.app('freq', [D(0)]):
            raise Undecided('other frequencies')
        return I.mk(Arr((NF,), T.app('S', [D(0), column(I, v)])))
    columns(E, 'get_mem_power_spectra', 'dynaphopy.power_spectrum.get_mem_power_spectra', {'dynaphopy.power_spectrum.mem.mem': kernel},
            {'number_of_coefficients_mem': MC}, facts=[NS - 2 - MC])
    columns(E, 'get_mem_power_spectra, too many coefficients', 'dynaphopy.power_spectrum.get_mem_power_spectra', {'dynaphopy.power_spectrum.mem.mem': kernel},
            {'number_of_coefficients_mem': MC}, facts=[MC + 1 - NS], outcome='exit', check=lambda ob, I, o: ob('refused', P(1), T.ONE))
    E.trust(*C_TRUST)
