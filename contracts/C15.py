"""Contracts of C15: thermal functions of independent harmonic oscillators."""
from contracts.world import *
from dpv.deductive.npfun import quadrature

LEVEL = 'proof'
TECHNIQUE = 'contracts on the real Python source, symbolic execution with inductive loop summaries, term normal form and z3; bounded replay on the real code'
NOTE = 'get_total_energy, get_free_energy, get_entropy, get_cv and get_dos proved for all grids, densities and temperatures as quadratures of the oscillator expressions (physical constants as in the module); their relations proved as lemmas over these contracts; quadrature error and overflow are covered by bounded cases'
TP = 'dynaphopy.analysis.thermal_properties.'
G = size('G')                        # grid points
TEMP = T.var('T', nn=True)
KB, H, NA, EV = T.var('k_b', nn=True), T.var('h_bar', nn=True), T.var('N_a', nn=True), T.var('eV', nn=True)


def constants(I):
    """The physical constants of the module, checked against the accepted values (2014 CODATA) to one part in a million."""
    return {k: I.global_name(I.src.module('dynaphopy.analysis.thermal_properties'), k) for k in ('k_b', 'h_bar', 'N_a')}


def f(i):
    return T.app('f', [P(i)], nn=True)


def g(i):
    return T.app('g', [P(i)], nn=True)


class Physics:
    """Energy, free energy, entropy and heat capacity of one oscillator of frequency nu."""

    def __init__(self, c, temp=TEMP):
        self.k, self.h, self.t = P(c['k_b']), P(c['h_bar']), temp

    def x(self, nu):
        return self.h * nu / (self.k * self.t)

    def n(self, nu):
        return T.power(T.exp(self.x(nu)) - 1, T.F(-1))

    def energy(self, nu):
        return self.h * nu * (P(T.F(1, 2)) + self.n(nu))

    def free(self, nu):
        x = self.x(nu)
        return self.k * self.t * T.log(T.exp(x / 2) - T.exp(-x / 2))

    def entropy(self, nu):
        x = self.x(nu)
        coth = (T.exp(x / 2) + T.exp(-x / 2)) / (T.exp(x / 2) - T.exp(-x / 2))
        return self.h * nu / (2 * self.t) * coth - self.k * T.log(T.exp(x / 2) - T.exp(-x / 2))

    def cv(self, nu):
        x = self.x(nu)
        return self.k * x * x * T.exp(x) * T.power(T.exp(x) - 1, T.F(-2))


def obligations(E):
    l0 = T.var('_l0', 'i', nn=True)

    def setup(I):
        w = World(I)
        w.f = I.mk(Arr((G,), f(D(0))))
        w.g = I.mk(Arr((G,), g(D(0))))
        return [TEMP, w.f, w.g], {}

    def check(what, unit):
        def c(ob, I, o):
            k = constants(I)
            for name, value in (('k_b', 1.38064852e-23), ('h_bar', 6.62607004e-22), ('N_a', 6.02214086e23)):
                v = P(k[name]).const()
                ob('constant %s' % name, P(1 if v is not None and abs(float(v) / value - 1) < 1e-6 else 0), P(1))
            e = getattr(Physics(k), what)(f(l0)) * g(l0)
            if what == 'free':
                # the zero frequency, where the logarithm diverges, counts nothing
                e = e * (1 - T.eq(l0, 0) * T.eq(f(0), 0))
            ob('the integral of the density times the oscillator expression', o.value, quadrature('simps', e, f(l0), G) * P(k['N_a']) / unit)
        return c
    for fn, what, unit in (('get_total_energy', 'energy', 1000), ('get_free_energy', 'free', 1000), ('get_entropy', 'entropy', 1), ('get_cv', 'cv', 1)):
        E.function(fn, TP + fn, setup, check(what, unit), facts=SIZES + [G - 2])

    # ---- lemmas over the contracts
    def lemma(I):
        return None
    nu, t = T.var('nu', nn=True), TEMP
    ph = Physics({'k_b': KB, 'h_bar': H})
    E.equal('lemma: free energy = energy - temperature * entropy, for every oscillator', ph.free(nu), ph.energy(nu) - t * ph.entropy(nu), function='lemma')
    # derivative of the energy with respect to the temperature: d/dT n = -(exp(x)-1)^-2 exp(x) dx/dT with dx/dT = -x/T
    dx = -ph.x(nu) / t
    dn = -T.power(T.exp(ph.x(nu)) - 1, T.F(-2)) * T.exp(ph.x(nu)) * dx
    E.equal('lemma: the heat capacity is the temperature derivative of the energy, for every oscillator', ph.cv(nu), ph.h * nu * dn, function='lemma')

    # ---- density of states from a power spectrum
    for bose in (False, True):
        def setup_dos(I):
            w = World(I)
            w.f = I.mk(Arr((G,), f(D(0))))
            w.s = I.mk(Arr((G,), T.app('s', [D(0)], nn=True)))
            return [TEMP, w.f, w.s, T.var('cells', nn=True)], {'bose_einstein_statistics': bose}

        def check_dos(ob, I, o):
            k = constants(I)
            p = Physics(k)
            ev = P(T.F('1.60217662e-19'))
            en = p.energy(f(D(0))) if bose else p.k * TEMP
            ob('2 / oscillator energy times the spectrum per unit cell', o.value, Arr((G,), 2 * ev * T.app('s', [D(0)], nn=True) / (en * T.var('cells', nn=True))))
        E.function('get_dos%s' % (', quantum statistics' if bose else ''), TP + 'get_dos', setup_dos, check_dos, facts=SIZES + [G - 2])
    E.trust('scipy simpson quadrature is linear in the sampled function', 'numpy.nan_to_num leaves finite numbers as they are',
            'the derivative of exp and the chain rule in the heat capacity lemma')
