"""Contracts of C16: reported peak parameters describe the fitted curve."""
from contracts.world import *

LEVEL = 'proof'
TECHNIQUE = 'contracts on the real Python source, symbolic execution with inductive loop summaries, term normal form and z3; bounded replay on the real code'
NOTE = 'get_fitting and get_fitting_parameters of the three shapes proved for all parameters returned by the least squares routine; phonon_fitting_analysis proved for any number of modes and samples; that the least squares routine finds the best parameters is outside'
FF = 'dynaphopy.analysis.fitting.fitting_functions.'
FA = 'dynaphopy.analysis.fitting.'
SHAPES = {'Lorentzian': 4, 'Lorentzian_asymmetric': 5, 'Damped_harmonic': 4}
G = size('G')                        # samples of the spectrum
X = T.var('x')                       # some frequency
TOP = T.var('top')                   # position of the maximum found by the minimiser
FAILS, NAN = T.var('fails', 'i', nn=True), T.var('isnan', 'i', nn=True)


def p(i):
    return T.app('p', [P(i)])


def freq(i):
    return T.app('f', [P(i)])


def curve(I, at):
    """The fitted curve of the object, as its own method gives it."""
    return I.num(I.call(I.getattr(I.w.fit, 'get_curve'), [at], {}))


def same_curve(I, f, sign=1, args=()):
    """The function given to a numerical routine is the fitted curve (times sign)."""
    z = T.fresh('z', 'r')
    v = I.num(I.call(f, [z] + list(args), {}))
    return v is not None and T.equal(v, P(sign) * curve(I, z), ())[0] == 'equal'


def quad(I, f, a, b, args=(), **kw):
    """Integral of a function; a name for it when it is the fitted curve."""
    args = I.items(args) if not isinstance(args, tuple) else args
    name = 'integral' if same_curve(I, f, 1, args) else 'another_integral'
    return (T.app(name, [I.num(a), I.num(b)]), T.var('quad_error'))


def minimize_scalar(I, f, bracket=None, bounds=None, method=None, **kw):
    """Bounded minimisation of minus the fitted curve over the analysed range."""
    b = [I.num(x) for x in I.items(bounds)] if bounds is not None else []
    good = method in ('bounded', 'Bounded', None) and len(b) == 2 and b[0] == freq(0) and b[1] == freq(G - 1) and same_curve(I, f, -1)
    x = TOP if good else T.var('another_top')
    return DictRef(I.new({'x': x, 'fun': I.num(I.call(f, [x], {}))}))


def isnan(sign):
    def g(I, x):
        v = I.num(x)
        if v is None or I.w.error is not None and v != I.w.error:
            raise Undecided('nan of something else')
        I.w.error = v
        return mkbool(NAN_IS if sign else T.neg(NAN_IS))
    return g


NAN_IS = T.bracket_ge(NAN - 1)
FAILS_IS = T.bracket_ge(FAILS - 1)


def parameters(n):
    def g(I, self):
        if I.decide(FAILS_IS):
            raise PyExc('RuntimeError')
        return (I.w.p, I.w.cov)
    return g


def fit_object(I, cls, **kw):
    w = World(I)
    w.error = None
    n = SHAPES[cls]
    w.f = I.mk(Arr((G,), freq(D(0))))
    w.s = I.mk(arr('s', (G,)))
    w.p = I.mk(Arr((n,), p(D(0))))
    w.cov = I.mk(arr('cov', (n, n)))
    ci = I.class_info(FF + cls)
    if ci is None:
        raise Undecided('class %s is not defined' % cls)
    w.fit = I.construct(FF + cls, ci, [w.f, w.s], kw)
    return w


def item(I, d, key):
    d = I.heap[d.cid]
    return d[key] if key in d else None


# ---- the analysis of a set of peaks: a fit is some functional of the samples
RESULTS = ('peak_position', 'area', 'width', 'base_line', 'maximum', 'global_error')


def functional(name, e, x=None):
    """A number that depends on the whole sampled spectrum e (a term of @0) over the frequencies."""
    l0 = T.var('_l0', 'i', nn=True)
    at = lambda q: T.subst(P(q), {'@0': l0})
    return T.fun('fit_' + name, G, at(e), at(x if x is not None else freq(D(0))))


def good(e):
    return T.bracket_ge(functional('good', e) - 1)


def fitted(I, self):
    s = I.arr(I.field(self, 'power_spectrum'))
    f = I.arr(I.field(self, 'test_frequencies_range'))
    if not same_dim(s.shape[0], G) or not same_dim(f.shape[0], G):
        raise Undecided('spectrum of another length')
    if not I.decide(T.bracket_ge(T.fun('fit_good', G, s.at(T.var('_l0', 'i', nn=True)), f.at(T.var('_l0', 'i', nn=True))) - 1)):
        return DictRef(I.new({'all_good': False}))
    r = {k: functional(k, s.expr, f.expr) for k in RESULTS}
    r['all_good'] = True
    r['standard_errors'] = Opaque('errors')
    return DictRef(I.new(r))


K = size('K')                        # peaks

PLT = {'matplotlib.pyplot.' + k: (lambda I, *a, **kw: Opaque('plot')) for k in (
    'figure', 'xlabel', 'ylabel', 'title', 'suptitle', 'text', 'plot', 'axvline', 'ylim', 'xlim', 'fill_between', 'legend', 'show')}
PLT['matplotlib.pyplot.gca'] = lambda I: Opaque('axes')
PLT['opaque:axes.get_ylim'] = lambda I, *o: (T.var('bottom'), T.var('top_of_plot'))


def sample(t, i):
    return T.app('s', [P(t), P(i)])


def obligations(E):
    real = {'numpy.isnan': isnan(True), 'math.isnan': isnan(True), 'numpy.isfinite': isnan(False), 'math.isfinite': isnan(False),
            'scipy.integrate.quad': quad, 'scipy.optimize.minimize_scalar': minimize_scalar}
    for cls, n in SHAPES.items():
        q = FF + cls

        # ---- parameters of the curve
        for guess in (False, True):
            def setup(I):
                kw = {'guess_position': T.var('gp'), 'guess_height': T.var('gh')} if guess else {}
                return [fit_object(I, cls, **kw).fit], {}

            def curve_fit(I, f, x, y, p0=None, **kw):
                if kw:
                    raise Undecided('curve_fit options')
                I.w.fits = I.w.fits + 1 if hasattr(I.w, 'fits') else 1
                I.w.curve = f
                I.w.data = (I.arr(x), I.arr(y))
                if p0 is not None and I.length(p0) != P(n):
                    raise PyExc('ValueError')
                return (I.w.p, I.w.cov)

            def check(ob, I, o):
                v = o.value
                ob('parameters', v[0], I.w.p)
                ob('covariances', v[1], I.w.cov)
                ob('fitted to the spectrum: frequencies', I.w.data[0], Arr((G,), freq(D(0))))
                ob('fitted to the spectrum: values', I.w.data[1], arr('s', (G,)))
                got = curve(I, X)
                ob('the curve of the object is the one that was fitted', got, I.num(I.call(I.w.curve, [X] + [p(i) for i in range(n)], {})))
                once = I.call(I.getattr(I.w.fit, 'get_fitting_parameters'), [], {})
                ob('a second request', once[0], I.w.p)
            E.function('%s.get_fitting_parameters%s' % (cls, ', with a guess' if guess else ''), q + '.get_fitting_parameters', setup, check,
                       contracts={'scipy.optimize.curve_fit': curve_fit}, facts=SIZES + [G - 1])

        # ---- what is reported
        def setup(I):
            return [fit_object(I, cls).fit], {}

        def check(ob, I, o):
            ok = item(I, o.value, 'all_good')
            failed = I.known(FAILS_IS)
            if failed:
                ob('a fit that fails is marked so', ok, False)
                return
            if I.w.error is None:
                ob('a fit without a finite error is marked as failed', P(0), P(1))
                return
            nan = I.known(NAN_IS)
            if nan:
                ob('a fit without a finite error is marked as failed', ok, False)
                return
            ob('marked as good', ok, True)
            pos, top, width, area = [item(I, o.value, k) for k in ('peak_position', 'maximum', 'width', 'area')]
            I.contracts = dict(I.contracts, **{q + '.get_fitting_parameters': lambda I, self: (I.w.p, I.w.cov)})
            base = item(I, o.value, 'base_line')
            ob('base line', base, p(3))
            c = lambda x: curve(I, x)
            num = lambda v: I.num(v) if I.num(v) is not None else T.var('not_a_number')
            if cls == 'Lorentzian':
                pos, top, width, area = [num(v) for v in (pos, top, width, area)]
                ob('maximum is the height of the curve at the position above the base line', top, c(pos) - p(3))
                u = (X - pos) / (width / 2)
                ob('the curve is nowhere higher: (maximum - curve) (1 + u^2) = maximum u^2, u the distance in half widths',
                   (top - (c(X) - p(3))) * (1 + u * u), top * u * u)
                ob('half maximum above the position', c(pos + width / 2) - p(3), top / 2)
                ob('half maximum below the position', c(pos - width / 2) - p(3), top / 2)
                ob('area: pi maximum half width, the integral of the curve above its base line', area, I.num(I.ext('numpy.pi')) * top * width / 2)
            elif cls == 'Lorentzian_asymmetric':
                ob('position is the top of the curve in the analysed range', pos, TOP)
                ob('maximum is the height there', top, c(TOP))
                ga = I.num(I.call(I.getattr(I.w.fit, '_g_a'), [TOP, p(0), p(1), p(4)], {}))
                ob('width is twice the local half width', width, 2 * ga)
                ob('area is the integral of the curve from zero to the last frequency', area, T.app('integral', [T.ZERO, freq(G - 1)]))
                ob('local half width: symmetric at no asymmetry, never more than twice', ga, 2 * p(1) / (1 + T.exp(p(4) * (TOP - p(0)))))
            else:
                ob('position is the resonance', pos, p(0))
                ob('maximum is the height of the curve there', top, c(p(0)))
                ob('width is the damping', width, T.absolute(p(1)))
                ob('area is the integral of the curve from zero to the last frequency', area, T.app('integral', [T.ZERO, freq(G - 1)]))
                ob('the curve is that of a damped oscillator', (c(X) - p(3)) * ((p(0) ** 2 - X ** 2) ** 2 + (p(1) * X) ** 2), p(2))
        E.function(cls + '.get_fitting', q + '.get_fitting', setup, check, contracts=dict(real, **{q + '.get_fitting_parameters': parameters(n)}),
                   facts=SIZES + [G - 1], outcome=('next', 'return'))

    # ---- all the peaks of a set
    def average(I, index, data, degeneracy):
        if not isinstance(degeneracy, Opaque) or degeneracy.name != 'some:groups':
            raise Undecided('other groups of modes')
        a = I.arr(data)
        if a.expr != sample(D(0), D(1)) or not same_dim(a.shape[1], K):
            raise Undecided('average of something else')
        return I.mk(Arr((G,), T.app('avg', [D(0), I.num(index)])))

    def groups(I, freqs, cutoff=None):
        if cutoff is not None or I.arr(freqs).expr != T.app('h', [D(0)]):
            raise Undecided('groups of other frequencies')
        return Opaque('some:groups')

    for cls, kind in zip(SHAPES, range(3)):
        for degenerate in (False, True):
            for harm, shift, plots in ((False, False, False), (True, False, False), (True, True, False), (True, True, True)):
                if degenerate and not harm or plots and (degenerate or kind):
                    continue

                def setup(I):
                    w = World(I)
                    w.s = I.mk(Arr((G, K), sample(D(0), D(1))))
                    w.f = I.mk(Arr((G,), freq(D(0))))
                    kw = {'harmonic_frequencies': I.mk(arr('h', (K,))) if harm else None,
                          'thermal_expansion_shift': I.mk(arr('shift', (K,))) if shift else None,
                          'fitting_function_type': kind, 'show_plots': plots, 'use_degeneracy': degenerate}
                    return [w.s, w.f], kw

                def check(ob, I, o):
                    d = o.value
                    i = D(0)
                    l0 = T.fresh('q')
                    # own or average spectrum of mode i
                    own = lambda k: T.fun('fit_' + k, G, T.app('avg', [T.var('_l0', 'i', nn=True), i]) if degenerate else sample(T.var('_l0', 'i', nn=True), i),
                                          freq(T.var('_l0', 'i', nn=True)))
                    g = T.bracket_ge(own('good') - 1)
                    pos = own('peak_position') + (T.app('shift', [i]) if shift else 0)
                    for key, e in (('positions', pos), ('widths', own('width')), ('error', own('global_error') / own('maximum')), ('dt_Q2', 2 * own('area'))):
                        v = item(I, d, key)
                        ob(key + ': number of entries', I.length(v) if isinstance(v, (Ref, ListRef)) else v, K)
                        ob(key + ': one per mode, zero when the fit failed', v, Arr((K,), g * e))
                E.function('phonon_fitting_analysis, %s%s%s%s%s' % (cls, ', groups' if degenerate else '', ', harmonic frequencies' if harm else '', ', shift' if shift else '', ', plots' if plots else ''),
                           FA + 'phonon_fitting_analysis', setup, check,
                           contracts={**PLT, FF + cls + '.get_curve': lambda I, self, x: I.mk(arr('curve', (G,))), FF + cls + '.get_fitting': fitted, FA + 'degenerate_sets': groups, FA + 'average_phonon': average},
                           facts=SIZES + [G - 1, K])
    E.trust('scipy.optimize.curve_fit returns parameters and covariances of the function it is given; quad its integral; minimize_scalar the position of its minimum between the bounds',
            'the derivative of the arc tangent: the integral of h / (1 + ((x - a) / w)^2) over all x is pi h w')
