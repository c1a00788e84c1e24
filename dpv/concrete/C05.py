"""FFT spectra against an independent averaged periodogram of equal segments."""
import numpy as np
from dpv.concrete import lib
from dpv.concrete.lib import fail, close, equal, call, mix

FUNCTIONS = ['_division_of_data', '_numpy_power', '_fftw_power', 'get_fft_numpy_spectra', 'get_fft_fftw_power_spectra']


def segments(n, p):
    k = (n - 1) // p
    if k == 0:
        return [(0, n)]
    return [((i * (n - p)) // k, (i * (n - p)) // k + p) for i in range(k + 1)]


def oracle(freq, v, dt):
    n = len(v)
    p = int(round(1. / (dt * (freq[1] - freq[0]))))
    acc = 0
    segs = segments(n, p)
    for a, b in segs:
        x = v[a:b]; L = len(x)
        # autocorrelation at lags -(L//2) .. , L values, centred
        full = np.array([np.sum(x[max(0, k):L + min(0, k)] * np.conj(x[max(0, -k):L - max(0, k)])) for k in range(-(L - 1), L)])
        start = (len(full) - L) // 2
        same = full[start:start + L] / L
        w = np.exp(-2j * np.pi * np.outer(np.arange(L), np.arange(L)) / L)
        acc = acc + np.abs(w @ same) * dt
    spec = acc / len(segs)
    L = segs[0][1] - segs[0][0]
    f = np.array([k if k < (L + 1) // 2 else k - L for k in range(L)]) / (L * dt)
    o = np.argsort(f)
    return np.interp(freq, f[o], spec[o])


def cases(rng, tier):
    for rep in range(90 if tier == 'quick' else 1500):
        yield {'kind': 'spectra', 'rep': rep, 'mode': ['pieces', 'whole', 'exact', 'any', 'edge'][rep % 5]}
    lim = 260 if tier == 'quick' else 900
    for n in range(2, lim, 29):
        yield {'kind': 'segments', 'from': n, 'to': min(n + 29, lim), 'rep': n}
    for rep in range(4 if tier == 'quick' else 40):
        yield {'kind': 'segments_large', 'rep': rep}
    for rep in range(10):
        yield {'kind': 'ragged', 'rep': rep}


class T:
    def __init__(self, dt):
        self.dt = dt

    def get_time_step_average(self):
        return self.dt


def settings(p, freq, silent, zero=0):
    p.frequency_range = freq
    p.silent = silent
    if zero:
        p.zero_padding = zero


def check(case):
    rng = mix(case)
    from dynaphopy.power_spectrum import power_spectrum_functions as F, unit_conversion as U
    from dynaphopy.parameters import Parameters
    if case['kind'] in ('segments', 'segments_large'):
        div = lib.need('dynaphopy.power_spectrum', '_division_of_data')
        if case['kind'] == 'segments':
            pairs = [(n, p) for n in range(case['from'], case['to']) for p in range(1, n + 3)]
        else:
            pairs = [(int(rng.integers(1000, 200000)), int(rng.integers(3, 3000))) for _ in range(300)]
        for n, p in pairs:
            try:
                segs = [(int(s[0]), int(s[1])) for s in div(1.0 / p, n, 1.0)]
            except Exception as e:      # a private helper: its interface may change, the spectra are checked below
                raise lib.Skip('segment helper has another interface: %s' % e)
            L = min(p, n) if (n - 1) // p else n
            if (segs[0][0] != 0 or segs[-1][1] != n or any(b - a != L or a < 0 or b > n for a, b in segs)):
                bad = [tuple(s) for s in segs if s[1] - s[0] != L] or [tuple(segs[0]), tuple(segs[-1])]
                fail('segments of %d samples for length %d: %r' % (n, p, bad[:3]))
            if set(tuple(map(int, s)) for s in segs) != set(segments(n, p)):
                fail('segments of %d samples for length %d: %r instead of %r' % (n, p, segs[:4], segments(n, p)[:4]))
        return
    par = Parameters()
    if case['kind'] == 'ragged':
        n, p = [(129, 6), (107, 5), (107, 9), (132, 17), (131, 11), (131, 9), (119, 10), (118, 5), (114, 5), (122, 9)][case['rep'] % 10]
        dt = 0.01
        cols = 1
    else:
        cols = int(rng.choice([1, 2, 3]))
        mode = case['mode']
        p = int(rng.integers(2, 40))
        n = {'pieces': p * int(rng.integers(2, 6)) + int(rng.integers(0, p)), 'whole': int(rng.integers(2, p + 1)),
             'exact': p * int(rng.integers(1, 5)) + 1, 'any': int(rng.integers(2, 150)), 'edge': p * int(rng.integers(1, 5))}[mode]
        dt = float(rng.choice([0.001, 0.0123, 0.25]))
    res = 1. / (dt * (p + rng.uniform(-.3, .3)))
    nf = int(rng.integers(2, 9))
    f0 = rng.uniform(0, 0.2) / dt if rng.random() < .5 else 0.0
    freq = f0 + res * np.arange(nf)
    v = rng.normal(size=(n, cols)) + 1j * rng.normal(size=(n, cols))
    v[-1] *= 6; v[0] *= 4
    silent = bool(rng.integers(2))
    v0 = v.copy()
    settings(par, freq, silent, int(rng.choice([0, 0, 50])))
    ref = np.array([oracle(freq, v[:, i], dt) for i in range(cols)]).T * U
    r = np.array(call(F[2][0] if case['rep'] % 2 else F[3][0], v, T(dt), par))
    r2 = np.array(call(F[3][0] if case['rep'] % 2 else F[2][0], v, T(dt), par))
    names = ('FFT (numpy)', 'FFT (FFTW)')
    if not case['rep'] % 2:
        names = names[::-1]
    close(r, ref, rtol=1e-8, what='%s spectrum, %d samples' % (names[0], n))
    close(r2, ref, rtol=1e-8, what='%s spectrum, %d samples' % (names[1], n))
    equal(v, v0, 'signal after the call')
