"""Reported peak parameters against the fitted curve itself."""
import numpy as np
from scipy.integrate import quad
from dpv.concrete import lib
from dpv.concrete.lib import fail, close, equal, call, mix

FUNCTIONS = ['Lorentzian.get_fitting', 'Lorentzian_asymmetric.get_fitting', 'Damped_harmonic.get_fitting',
             'fitting.phonon_fitting_analysis']


def shape(kind, x, a, b, c, d, s):
    if kind == 0:
        return c / (np.pi * b * (1 + ((x - a) / b) ** 2)) + d
    if kind == 1:
        g = 2 * b / (1 + np.exp(s * (x - a)))
        return c / (np.pi * g * (1 + ((x - a) / g) ** 2)) + d
    return c / ((a ** 2 - x ** 2) ** 2 + (b * x) ** 2) + d


def cases(rng, tier):
    for rep in range(75 if tier == 'quick' else 900):
        yield {'kind': 'curve', 'fn': rep % 3, 'rep': rep, 'noise': [0, 0.01, 0.05][rep // 3 % 3], 'guess': rep % 5 != 4}
    for rep in range(36 if tier == 'quick' else 400):
        yield {'kind': 'set', 'fn': [0, 0, 1, 2][rep % 4], 'rep': rep, 'shift': rep % 2 == 1, 'bad': rep % 3 == 2, 'sym': rep % 5 == 3}
    for rep in range(6):
        yield {'kind': 'failed', 'fn': rep % 3, 'rep': rep}


def spectrum(rng, kind, noise, x):
    a = rng.uniform(4, 16); b = rng.uniform(.25, 1.5); d = rng.uniform(-.02, .1); s = rng.uniform(-.5, .5)
    c = rng.uniform(.5, 4) if kind != 2 else rng.uniform(.5, 4) * a ** 2 * b
    y = shape(kind, x, a, b, c, d, s)
    return y + rng.normal(size=len(x)) * noise * y.max()


def check(case):
    rng = mix(case)
    from dynaphopy.analysis.fitting.fitting_functions import fitting_functions as FF
    import dynaphopy.analysis.fitting as fit
    x = np.arange(0 if rng.random() < .7 else 1.0, 20 + rng.uniform(0, 6), .04)
    fn = case['fn']
    if case['kind'] == 'curve':
        y = spectrum(rng, fn, case['noise'], x)
        y0 = y.copy()
        kw = dict(guess_position=x[np.argmax(y)], guess_height=y.max()) if case['guess'] or fn != 0 else dict(guess_position=x[np.argmax(y)], guess_height=y.max())
        o = call(FF[fn], x, y, **kw)
        r = call(o.get_fitting)
        if not r['all_good']:
            if case['noise'] == 0 and fn == 0:
                fail('fit of an exact Lorentzian is reported as not successful')
            return
        curve = lambda z: np.asarray(call(o.get_curve, np.asarray(z, float)), float)
        c = curve(x)
        equal(y, y0, 'spectrum after the fit')
        if case['noise'] == 0 and fn == 0:
            close(c, y, rtol=1e-3, atol=1e-4, what='fitted curve against the exact spectrum')
        pos, mx, w, area, base = [float(r[k]) for k in ('peak_position', 'maximum', 'width', 'area', 'base_line')]
        close(mx, float(curve(np.array([pos]))[0]) - (base if fn == 0 else 0), rtol=1e-6, atol=1e-9, what='maximum against the curve at the peak')
        if fn in (0, 1) and x[0] < pos < x[-1]:
            near = np.linspace(max(x[0], pos - abs(w)), min(x[-1], pos + abs(w)), 4001)
            top = near[np.argmax(curve(near))]
            if fn == 0 or mx > curve(x).max() * .999:
                close(pos, top, rtol=0, atol=1e-3 * abs(w) + 2e-4 + (near[1] - near[0]) * 2, what='peak position against the top of the curve')
            if mx < (curve(x).max() - (base if fn == 0 else 0)) * (1 - 1e-3) - 1e-9:
                fail('maximum %.6f below the top of the curve %.6f' % (mx, curve(x).max()))
        if fn == 0:
            half = curve(np.array([pos - w / 2, pos + w / 2])) - base
            close(half, np.array([mx, mx]) / 2, rtol=1e-5, what='curve half a width away from the top')
            far = 1e6 * w
            close(base, float(curve(np.array([pos + far]))[0]), rtol=1e-6, atol=1e-7 * abs(mx) + 1e-12, what='base line')
            i = quad(lambda z: float(curve(np.array([z]))[0]) - base, pos - 50 * w, pos + 50 * w, points=[pos], limit=200)[0]
            close(area, i * np.pi / (2 * np.arctan(100)), rtol=1e-4, what='area against the integral of the curve')
        else:
            i = quad(lambda z: float(curve(np.array([z]))[0]), 0, x[-1], limit=400, points=[min(max(pos, 1e-3), x[-1] * .999)])[0]
            close(area, i, rtol=1e-3, atol=1e-6, what='area against the integral of the curve')
            p = [float(v) for v in call(o.get_fitting_parameters)[0]]
            zz = np.array([.3, .7, 1.1, 1.9]) * abs(pos) + .01
            close(curve(zz), shape(fn, zz, *(p + [0.0] * (5 - len(p)))), rtol=1e-6, atol=1e-9, what='curve against its parameters')
            if fn == 1:
                g = 2 * p[1] / (1 + np.exp(p[4] * (pos - p[0])))
                close(w, 2 * g, rtol=1e-7, what='width against the local half width')
                close(float(r['asymmetry']), p[4], what='asymmetry')
            else:
                close(w, abs(p[1]), rtol=1e-9, what='width against the damping constant')
                close(pos, p[0], rtol=1e-9, what='position against the resonance frequency')
        ge = float(r['global_error'])
        if not np.isfinite(ge) and case['noise']:
            fail('global error %r of a successful fit' % ge)
        return
    if case['kind'] == 'failed':
        y = np.zeros(len(x)) if case['rep'] < 3 else np.zeros(len(x)) - 0.0
        o = call(FF[fn], x, y, guess_position=5., guess_height=0.)
        r = call(o.get_fitting)
        out = call(fit.phonon_fitting_analysis, np.zeros((len(x), 2)), x, harmonic_frequencies=np.array([5., 6.]),
                   fitting_function_type=fn, show_plots=False, use_degeneracy=False)
        if not r['all_good']:
            equal([float(v) for v in out['positions']], [0., 0.], 'positions of unsuccessful fits')
            equal([float(v) for v in out['widths']], [0., 0.], 'widths of unsuccessful fits')
        return
    m = int(rng.integers(2, 6))
    Y = np.array([spectrum(rng, fn, .01, x) for _ in range(m)]).T
    if case['bad']:
        Y[:, rng.integers(m)] = 0
    shift = rng.uniform(-.5, .5, m) if case['shift'] else None
    harm = np.sort(rng.uniform(2, 18, m))
    if case['sym'] and m > 2:
        harm[1] = harm[0] + 2e-5
    groups = [[j for j in range(m) if abs(harm[j] - harm[i]) < 1e-4] for i in range(m)] if case['sym'] else [[i] for i in range(m)]
    Y0 = Y.copy()
    out = call(fit.phonon_fitting_analysis, Y, x, harmonic_frequencies=harm, thermal_expansion_shift=shift,
               fitting_function_type=fn, show_plots=False, use_degeneracy=case['sym'])
    equal(Y, Y0, 'spectra after the analysis')
    pos, wid = [], []
    for i in range(m):
        y = Y[:, groups[i]].mean(axis=1)
        o = call(FF[fn], x, y, guess_position=x[np.argmax(y)], guess_height=y.max())
        r = call(o.get_fitting)
        pos.append(float(r['peak_position']) + (0 if shift is None else shift[i]) if r['all_good'] else 0.)
        wid.append(float(r['width']) if r['all_good'] else 0.)
    close(np.array([float(v) for v in out['positions']]), np.array(pos), rtol=1e-6, atol=1e-7, what='positions of the set')
    close(np.array([float(v) for v in out['widths']]), np.array(wid), rtol=1e-6, atol=1e-7, what='widths of the set')
