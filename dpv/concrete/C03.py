"""Direct Fourier spectrum against the correlation sum."""
import numpy as np
from dpv.concrete import lib
from dpv.concrete.lib import fail, close, equal, call, mix

FUNCTIONS = ['correlation.correlation_par', 'get_fourier_direct_power_spectra']


def oracle(freq, v, dt, s, method):
    n = len(v)
    out = np.zeros(len(freq))
    w = 2 * np.pi * np.asarray(freq)
    for i in range(0, n, s):
        k = n - i - s
        if k <= 0:
            continue
        c = np.sum(np.conj(v[:k]) * v[i:i + k])
        t = (c * np.exp(1j * w * i * dt)).real
        if method == 1:
            out += 2 * t
        else:
            c2 = np.sum(np.conj(v[:k]) * v[i + s:i + s + k])
            out += t + (c2 * np.exp(1j * w * (i + s) * dt)).real
    return out * dt / (n // s)


def cases(rng, tier):
    for rep in range(80 if tier == 'quick' else 1500):
        yield {'kind': 'kernel', 'n': int([1, 2, 3, 7, 24, 50, 101, 20][rep % 8]), 'method': rep // 8 % 2, 'rep': rep,
               'step': ['one', 'divisor', 'random', 'n', 'default'][rep % 5]}
    for rep in range(8 if tier == 'quick' else 100):
        yield {'kind': 'wrapper', 'n': int([30, 61, 40][rep % 3]), 'cols': int([1, 3, 5][rep % 3]), 'rep': rep}


def check(case):
    rng = mix(case)
    n = case['n']
    if case['kind'] == 'kernel':
        from dynaphopy.power_spectrum import correlation
        v = rng.normal(size=n) + 1j * rng.normal(size=n)
        if rng.random() < .2:
            v = v.real + 0j
        if rng.random() < .3:
            v[[0, -1][rng.integers(2)]] *= 10
        st = case['step']
        s = {'one': 1, 'n': n, 'random': int(rng.integers(1, n + 1)),
             'divisor': int(rng.choice([d for d in range(1, n + 1) if n % d == 0])), 'default': 10}[st]
        if s > n:
            s = n
        dt = float(rng.choice([0.001, 0.1, 1.0]))
        nf = int(rng.choice([1, 3, 8]))
        freq = rng.uniform(-1, 1, nf) / dt
        v0, f0 = v.copy(), freq.copy()
        ref = oracle(freq, v, dt, s, case['method'])
        kw = dict(step=s, integration_method=case['method'])
        if st == 'default' and s == 10 and case['method'] == 1:
            kw = {}
        arg = v
        if rng.random() < .3:
            big = np.zeros(2 * n, complex); big[::2] = v; arg = big[::2]
        r = np.array(call(correlation.correlation_par, freq, arg, dt, **kw))
        close(r, ref, rtol=1e-9, atol=1e-12, what='spectrum (N=%d, step=%d, rule=%d)' % (n, s, case['method']))
        equal(v, v0, 'signal after the call'); equal(freq, f0, 'frequencies after the call')
        p = rng.permutation(nf)
        close(np.array(call(correlation.correlation_par, freq[p].copy(), arg, dt, **kw)), r[p], rtol=1e-12, what='reordered frequencies')
        return
    from dynaphopy.power_spectrum import power_spectrum_functions, unit_conversion
    from dynaphopy.parameters import Parameters
    p = Parameters()
    v = rng.normal(size=(n, case['cols'])) + 1j * rng.normal(size=(n, case['cols']))
    if rng.random() < .5:
        v = np.asfortranarray(v)
    dt = float(rng.choice([0.002, 0.01]))
    p.silent = bool(rng.integers(2))
    p.correlation_function_step = int(rng.integers(1, 12))
    p.integration_method = int(rng.integers(2))
    p.frequency_range = np.linspace(0, 0.5 / dt, 6)

    class T:
        def get_time_step_average(self):
            return dt
    r = np.array(call(power_spectrum_functions[0][0], v, T(), p))
    ref = np.array([oracle(p.frequency_range, v[:, i], dt, p.correlation_function_step, p.integration_method)
                    for i in range(case['cols'])]).T * unit_conversion
    close(r, ref, rtol=1e-9, what='spectra')
