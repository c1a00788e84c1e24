"""Degenerate groups."""
import numpy as np
from dpv.concrete import lib
from dpv.concrete.lib import fail, close, equal, call, mix
from dpv.concrete.C16 import spectrum

FUNCTIONS = ['fitting.degenerate_sets', 'fitting.average_phonon', 'fitting.phonon_fitting_analysis']


def groups_of(f, cut):
    g = []
    for i in range(len(f)):
        if i and f[i] - f[i - 1] < cut:
            g[-1].append(i)
        else:
            g.append([i])
    return g


def freqs(rng, m, cut):
    gaps = rng.choice([0., .3, .6, .9, .999, 1.001, 1.5, 3, 1e4, 5e4], m) * cut
    f = rng.uniform(-1, 3) + np.cumsum(gaps)
    d = np.diff(f)
    return f, bool(len(d) == 0 or np.abs(d / cut - 1).min() > 1e-5)


def cases(rng, tier):
    for rep in range(120 if tier == 'quick' else 2000):
        yield {'kind': 'sets', 'rep': rep, 'm': int(rng.integers(1, 13)), 'cut': [None, 1e-4, .01, .5][rep % 4]}
    for rep in range(12 if tier == 'quick' else 120):
        yield {'kind': 'analysis', 'rep': rep, 'm': int(rng.integers(2, 7))}


def check(case):
    rng = mix(case)
    import dynaphopy.analysis.fitting as fit
    m = case['m']
    cut = case.get('cut') or 1e-4
    f, ok = freqs(rng, m, cut)
    if not ok:
        return
    ref = groups_of(f, cut)
    if case['kind'] == 'sets':
        kw = {} if case['cut'] is None else {'cutoff': cut}
        arg = f.copy()
        r = [list(map(int, s)) for s in call(fit.degenerate_sets, arg, **kw)]
        equal(arg, f, 'frequencies after the call')
        if sorted(map(sorted, r)) != sorted(ref):
            fail('degenerate groups of gaps/cut-off %s: %s instead of %s' % (np.round(np.diff(f) / cut, 3), r, ref))
        n = int(rng.integers(2, 7))
        data = rng.normal(size=(n, m))
        tot = 0
        for i in range(m):
            g = [s for s in ref if i in s][0]
            a = np.array(call(fit.average_phonon, i, data, r))
            close(a, data[:, g].mean(axis=1), rtol=1e-12, what='average spectrum of mode %d' % i)
            tot = tot + a
        close(tot, data.sum(axis=1), rtol=1e-10, what='sum over modes of the average spectra')
        return
    x = np.arange(0, 20, .05)
    f = np.abs(f) + 1
    f.sort()
    ref = groups_of(f, 1e-4)
    Y = np.array([spectrum(rng, 0, .01, x) for _ in range(m)]).T
    from dynaphopy.analysis.fitting.fitting_functions import fitting_functions as FF
    out = call(fit.phonon_fitting_analysis, Y, x, harmonic_frequencies=f, show_plots=False, use_degeneracy=True)
    for g in ref:
        p = [float(out['positions'][i]) for i in g]; w = [float(out['widths'][i]) for i in g]
        close(np.array(p), np.full(len(g), p[0]), rtol=1e-7, what='positions of a degenerate group')
        close(np.array(w), np.full(len(g), w[0]), rtol=1e-7, what='widths of a degenerate group')
        y = Y[:, g].mean(axis=1)
        r = call(call(FF[0], x, y, guess_position=x[np.argmax(y)], guess_height=y.max()).get_fitting)
        if r['all_good']:
            close(p[0], float(r['peak_position']), rtol=1e-5, what='position of a degenerate group')
    out = call(fit.phonon_fitting_analysis, Y, x, harmonic_frequencies=f, show_plots=False, use_degeneracy=False)
    for i in range(m):
        y = Y[:, i]
        r = call(call(FF[0], x, y, guess_position=x[np.argmax(y)], guess_height=y.max()).get_fitting)
        if r['all_good']:
            close(float(out['positions'][i]), float(r['peak_position']), rtol=1e-5, what='position without degeneracy')
