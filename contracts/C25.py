"""Contracts of C25: units of spectra, energies and temperatures."""
from contracts.world import *
from contracts.ckernels import *
from contracts import C03, C16, quasi
from dpv.deductive.terms import Poly

LEVEL = 'proof'
TECHNIQUE = 'contracts on the real Python and C source, symbolic execution with inductive loop summaries, term normal form and z3; bounded replay on the real code'
NOTE = 'the unit factor of the four algorithms, the integral of the direct spectrum, the temperature from velocities and the occupation and temperature of a peak proved for every input; the integral of the maximum entropy spectrum and the convergence of the temperature are bounded'
PS = 'dynaphopy.power_spectrum.'
EV = 1.66053906660e-27 * 1e4 / 1.602176634e-19      # u A^2 / ps^2 in eV
KB = 1.380649e-23 / (1.66053906660e-27 * 1e4)       # Boltzmann's constant in u A^2 / (ps^2 K)
H = 4.135667696e-3                                  # eV ps
KBEV = 8.617333262e-5                               # eV / K
# the values to six and seven digits that are in use
KBS = [T.F('0.831446'), KB]
HS = [T.F('4.135667662e-3'), H]
RATIOS = [T.F('4.135667662e-3') / T.F('8.6173324e-5'), H / KBEV]


def near(p, value, tol=2e-6):
    c = P(p).const()
    return c is not None and abs(float(c) / value - 1) < tol


def factor(term, atom):
    """Coefficient c of a term c * atom."""
    p = P(term)
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        if P(atom) == Poly({mono: T.F(1)}):
            return c
    return None


def same(E, code, build, values, tol=2e-5):
    """The contract's term with a physical constant of any number of digits: equal up to numerical coefficients within tol."""
    code = P(code)
    for v in values:
        want = P(build(P(T.F(v) if isinstance(v, float) else v)))
        if set(code.m) == set(want.m) and all(abs(float(code.m[k] / want.m[k]) - 1) < tol for k in code.m):
            return code
        if T.equal(code, want, (), (), last=False)[0] == 'equal':
            return want
    ok = 0
    for v in E.valuations([code, want], ()):
        try:
            x, y = T.evaluate(code, v), T.evaluate(want, v)
        except (T.EvalError, OverflowError, ZeroDivisionError):
            continue
        if abs(x - y) > 10 * tol * (abs(x) + abs(y)):
            return want
        ok += 1
    if ok:
        raise Undecided('a term of another form with the same values')
    return want


def obligations(E):
    # ---------------------------------------------------------------- every algorithm: one factor, eV
    s = T.app('S', [D(0), D(1)])

    def check_unit(ob, I, o):
        a = I.arr(o.value)
        c = factor(a.expr, s)
        if c is None:
            # not of the form number times spectrum: compared with the accepted factor
            ob('every value times the unit factor', o.value, Arr((NF, MC_), s * UNIT))
            return
        ob('the factor is one u A^2 / ps^2 in eV', P(1 if near(P(c), EV) else 0), P(1))
        ob('one factor for every value', o.value, Arr((NF, MC_), s * c))

    def kernel(I, freq, v, *a, **kw):
        if I.arr(freq).expr != T.app('freq', [D(0)]):
            raise Undecided('other frequencies')
        return I.mk(Arr((NF,), T.app('S', [D(0), column(I, v)])))
    columns(E, 'unit of the direct spectrum', PS + 'get_fourier_direct_power_spectra', {PS + 'correlation.correlation_par': kernel},
            {'correlation_function_step': INC, 'integration_method': P(1)}, check=check_unit)
    columns(E, 'unit of the maximum entropy spectrum', PS + 'get_mem_power_spectra', {PS + 'mem.mem': kernel},
            {'number_of_coefficients_mem': MC}, facts=[NS - 2 - MC], check=check_unit)
    for name, fn in (('numpy', 'get_fft_numpy_spectra'), ('fftw', 'get_fft_fftw_power_spectra')):
        columns(E, 'unit of the %s spectrum' % name, PS + fn, {PS + '_%s_power' % name: kernel}, {'zero_padding': P(0)}, facts=[NF - 2], check=check_unit)

    # ---------------------------------------------------------------- integral of the direct spectrum
    f, j = T.var('f'), T.fresh('j')
    real = lambda i: T.app('u', [P(i)])
    dens = C03.spectrum(real, NS, DT, P(1), 2 * T.PI * f, 0)

    def integrate(a):
        """Integral over f from 0 to 1 / (2 dt) of exp(2 pi i f n dt), n integer: its real part."""
        if a.kind == 'fun' and a.data[0] == 'exp' and 'f' in a.free:
            n = a.data[1][0] / (2 * T.PI * T.I * f * DT)
            if not n.is_int() or 'f' in n.free:
                raise Undecided('not a harmonic of the sampling frequency')
            return T.bracket_eq(n) / (2 * DT)
        return None
    with T.facts(NS - 2):
        total = T.deep(dens, integrate)
        E.equal('lemma: the spectrum of a real signal with the trapezoid rule and unit step integrates to half its mean square', total,
                T.sum_range(j, 0, NS - 1, real(j) ** 2) / NS / 2, function='lemma')

    # ---------------------------------------------------------------- temperature from velocities
    EN = 'dynaphopy.analysis.energy.'
    q, i, k = T.fresh('q'), T.fresh('i'), T.fresh('k')
    square = T.sum_range(q, 0, N, T.sum_range(i, 0, M, T.sum_range(k, 0, 3, T.app('m', [i], nn=True) * T.app('u', [q, i, k]) ** 2)))

    def fit(I, data, floc=None, scale=None, **kw):
        """Maximum likelihood estimate of the scale with the location at zero: the root of a third of the mean square."""
        if kw or floc is None or I.num(floc) != T.ZERO:
            raise Undecided('fit of another distribution')
        a = I.arr(data)
        l = T.fresh('l')
        if a.ndim != 1:
            raise PyExc('ValueError')
        return (P(0), T.sqrt(T.sum_range(l, 0, a.shape[0], a.at(l) ** 2) / (3 * a.shape[0])))

    for silent in (True,):
        def setup(I):
            w = World(I, dim=P(3))
            w.vm = I.mk(Arr((N, M, P(3)), T.sqrt(T.app('m', [D(1)], nn=True)) * T.app('u', [D(0), D(1), D(2)])))
            w.par = quasi.new_parameters(I, silent=True)
            w.dyn = I.new_obj(DYN, {'$open': True})
            return [w.dyn, w.par], {}

        def check_t(ob, I, o):
            t = I.num(o.value)
            # Boltzmann's constant is a number of six digits: the terms agree up to it
            ob('mean of mass times squared velocity per degree of freedom', t, same(E, t, lambda kb: square / (3 * N * M) / kb, KBS))
        E.function('boltzmann_distribution', EN + 'boltzmann_distribution', setup, check_t,
                   contracts={DYN + '.get_velocity_mass_average': lambda I, self: I.w.vm, 'scipy.stats.maxwell.fit': fit,
                              'numpy.std': lambda I, x: T.var('deviation'), 'numpy.average': lambda I, x, **k: T.var('average')}, facts=SIZES)

    # the temperature of the quasiparticle object
    def setup(I):
        w = quasi.QWorld(I, silent=T.bracket_ge(T.var('quiet', 'i', nn=True) - 1))
        return [w.qp], {}

    def measured(I, trajectory, parameters):
        if not (isinstance(trajectory, Obj) and trajectory.cid == I.w.dyn.cid):
            raise Undecided('temperature of another trajectory')
        return T.var('temperature', nn=True)

    def check_q(ob, I, o):
        ob('temperature of the velocities', o.value, T.var('temperature', nn=True))
        ob('a second request', again(I, QP + '.get_temperature', I.w.qp), T.var('temperature', nn=True))
        I.call(I.getattr(I.w.qp, 'set_temperature'), [T.var('given', nn=True)], {})
        with T.facts(T.var('given', nn=True) - T.F(1, 1000)):
            ob('a temperature that was set', again(I, QP + '.get_temperature', I.w.qp), T.var('given', nn=True))
    E.function('get_temperature', QP + '.get_temperature', setup, check_q, contracts=quasi.contracts(**{EN + 'boltzmann_distribution': measured}),
               facts=SIZES + [T.var('temperature', nn=True) - T.F(1, 1000)])

    # ---------------------------------------------------------------- occupation and temperature of a peak
    G = C16.G
    for kind, cls in enumerate(C16.SHAPES):
        def setup(I):
            w = World(I)
            w.printed = []
            w.s = I.mk(Arr((G, 1), C16.sample(D(0), D(1))))
            w.f = I.mk(Arr((G,), C16.freq(D(0))))
            return [w.s, w.f], {'fitting_function_type': kind, 'show_plots': False, 'use_degeneracy': False}

        def text(I, template, *args, **kw):
            I.w.printed.append((template, args))
            return Opaque('text')

        def check_p(ob, I, o):
            d = o.value
            l0 = T.var('_l0', 'i', nn=True)
            own = lambda k: T.fun('fit_' + k, G, C16.sample(l0, P(0)), C16.freq(l0))
            good = T.bracket_ge(own('good') - 1)
            ob('energy: twice the area', C16.item(I, d, 'dt_Q2'), Arr((1,), good * 2 * own('area')))
            occ = [a[0] for t, a in I.w.printed if t.strip().startswith('Occupation') and a]
            temp = [a[0] for t, a in I.w.printed if t.strip().startswith('Fit temperature') and '(' not in t and a]
            if not occ or not temp:
                raise Undecided('occupation and temperature are not printed')
            n = I.num(occ[0])
            ob('occupation: twice the area over h times the position, less one half',
               n, same(E, n, lambda h: 2 * own('area') / (own('peak_position') * h) - T.F(1, 2), HS))
            t = I.num(temp[0])
            ob('temperature: h times the position over k log(1 / n + 1)', t, same(E, t, lambda h_kb: own('peak_position') / T.log(1 / n + 1) * h_kb, RATIOS))
        E.function('occupation and temperature of a peak, %s' % cls, C16.FA + 'phonon_fitting_analysis', setup, check_p,
                   contracts={C16.FF + cls + '.get_fitting': C16.fitted, 'str.format': text}, facts=SIZES + [G - 1])
    E.trust('the maximum likelihood scale of a Maxwell distribution at zero is the root of a third of the mean square, which scipy returns',
            'for integer n the integral of cos(2 pi f n dt) over 0 < f < 1/(2 dt) is 1/(2 dt) when n = 0 and zero otherwise',
            'mass times squared velocity has the mean k T per degree of freedom in a Maxwell-Boltzmann distribution',
            *C_TRUST)
