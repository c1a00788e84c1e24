"""Maximum entropy spectrum against an independent Burg implementation in extended precision."""
import numpy as np
from dpv.concrete import lib
from dpv.concrete.lib import fail, close, equal, call, mix

FUNCTIONS = ['mem.mem', 'get_mem_power_spectra']
LD = np.longdouble


def burg(x, m):
    x = np.asarray(x, dtype=LD)
    n = len(x)
    p = (x ** 2).sum() / n
    f = x[1:].copy(); b = x[:-1].copy()
    a = np.zeros(0, dtype=LD)
    dens = []
    for k in range(1, m + 1):
        den = (f ** 2).sum() + (b ** 2).sum()
        dens.append(den)
        if den < 1e-6:
            return None, LD(0), dens
        ref = 2 * (f * b).sum() / den
        a = np.concatenate([a - ref * a[::-1], [ref]])
        p = p * (1 - ref ** 2)
        f, b = (f - ref * b)[1:], (b - ref * f)[:-1]
    return a, p, dens


def spectrum(freq, v, dt, m):
    out = np.zeros(len(freq), dtype=LD)
    dens = []
    for part in (np.real(v), np.imag(v)):
        a, p, d = burg(part, m)
        dens += d
        if a is None or p == 0:
            continue
        w = 2 * LD(np.pi) * np.asarray(freq, dtype=LD) * LD(dt)
        z = 1 - sum((a[k - 1] * np.exp(1j * (w * k).astype(np.float64)).astype(np.clongdouble) for k in range(1, m + 1)),
                    np.zeros(len(freq), np.clongdouble))
        out += p / (np.real(z) ** 2 + np.imag(z) ** 2)
    return (out * LD(dt)).astype(float), dens


def signal(rng, n, kind):
    t = np.arange(n)
    if kind == 0:
        return rng.normal(size=n) + 1j * rng.normal(size=n)
    if kind == 1:   # damped tones plus noise
        x = sum(rng.uniform(.3, 2) * np.exp(1j * (rng.uniform(-1.5, 1.5) * t + rng.uniform(0, 6))) for _ in range(2))
        return x + 0.3 * (rng.normal(size=n) + 1j * rng.normal(size=n))
    if kind == 2:   # real signal: imaginary part identically zero
        return rng.normal(size=n) + 0j
    if kind == 3:   # imaginary only
        return 1j * rng.normal(size=n)
    if kind == 4:   # zero, or below the threshold
        return np.zeros(n, complex)
    if kind == 5:   # outlier at one end
        x = rng.normal(size=n) + 1j * rng.normal(size=n)
        x[[0, -1][rng.integers(2)]] += 8 + 5j
        return x
    if kind == 6:   # different scales of both parts
        return 50 * rng.normal(size=n) + 0.2j * rng.normal(size=n)
    return np.cumsum(rng.normal(size=n)) + 1j * rng.normal(size=n)


def cases(rng, tier):
    for rep in range(64 if tier == 'quick' else 1200):
        n = int([6, 9, 17, 40, 73, 160, 3, 257][rep % 8])
        yield {'kind': 'kernel', 'n': n, 'sig': rep // 8 % 8, 'rep': rep,
               'mode': ['random', 'one', 'max', 'random'][rep % 4]}
    for rep in range(8 if tier == 'quick' else 80):
        yield {'kind': 'wrapper', 'n': int([30, 61, 12, 200][rep % 4]), 'cols': int([1, 3, 4][rep % 3]), 'rep': rep}
    if tier != 'quick':
        for rep in range(10):
            yield {'kind': 'kernel', 'n': 3000, 'sig': rep % 8, 'rep': rep, 'mode': 'hundreds'}


def pick(rng, n, mode):
    if mode == 'one':
        return 1
    if mode == 'max':
        return max(1, n - 2)
    if mode == 'hundreds':
        return int(rng.integers(200, 700))
    return int(rng.integers(1, max(2, n - 1)))


def conditioned(dens, x, m):
    """Both sides keep enough digits: no step close to the stop threshold, none nearly exhausted."""
    return all(abs(float(d) - 1e-6) > 1e-8 and (d < 1e-6 or d > 1e-7) for d in dens)


def check(case):
    rng = mix(case)
    n = case['n']
    if case['kind'] == 'kernel':
        from dynaphopy.power_spectrum import mem
        v = signal(rng, n, case['sig'])
        m = pick(rng, n, case['mode'])
        dt = float(rng.choice([0.001, 0.01, 0.37, 1.0]))
        nf = int(rng.choice([1, 2, 9]))
        freq = rng.uniform(0, 0.5 / dt, nf)
        if rng.random() < .3:
            freq[0] = 0.0
        ref, dens = spectrum(freq, v, dt, m)
        if not conditioned(dens, v, m):
            return
        v0, f0 = v.copy(), freq.copy()
        r = np.array(call(mem.mem, freq, v, dt, coefficients=m))
        close(r, ref, rtol=0, atol=0, what='spectrum') if False else None
        compare(r, ref, m, n)
        equal(v, v0, 'signal after the call'); equal(freq, f0, 'frequencies after the call')
        if n > 102 and case['rep'] % 2:
            ref2, d2 = spectrum(freq, v, dt, 100)
            if conditioned(d2, v, 100):
                compare(np.array(call(mem.mem, freq, v, dt)), ref2, 100, n, 'default number of coefficients')
        perm = rng.permutation(nf)
        compare(np.array(call(mem.mem, freq[perm].copy(), v, dt, coefficients=m)), r[perm], m, n, 'reordered frequencies')
        one = np.array(call(mem.mem, freq[:1].copy(), v, dt, coefficients=m))
        compare(one, r[:1], m, n, 'single frequency')
        return
    from dynaphopy.power_spectrum import power_spectrum_functions, unit_conversion
    from dynaphopy.parameters import Parameters
    p = Parameters()
    m = int(rng.integers(1, n - 2))
    v = np.array([signal(rng, n, int(k)) for k in rng.choice([0, 1, 2, 5, 6], case['cols'])]).T
    if rng.random() < .5:
        v = np.asfortranarray(v)
    dt = float(rng.choice([0.002, 0.01]))
    p.silent = bool(rng.integers(2))
    p.number_of_coefficients_mem = m
    p.frequency_range = np.linspace(0, 0.4 / dt, 7)

    class T:
        def get_time_step_average(self):
            return dt
    r = np.array(call(power_spectrum_functions[1][0], v, T(), p))
    if r.shape != (7, case['cols']):
        fail('spectra of %d signals have shape %s' % (case['cols'], r.shape))
    for i in range(case['cols']):
        ref, dens = spectrum(p.frequency_range, v[:, i], dt, m)
        if conditioned(dens, v, m):
            compare(r[:, i], ref * unit_conversion, m, n, 'column %d' % i)


def compare(r, ref, m, n, what='spectrum'):
    r = np.asarray(r); ref = np.asarray(ref)
    if r.shape != ref.shape:
        fail('%s: shape %s instead of %s' % (what, r.shape, ref.shape))
    tol = 1e-6 if m < 60 else 1e-4
    bad = ~(np.abs(r - ref) <= tol * np.maximum(np.abs(ref), 1e-300) + 1e-15 * max(np.abs(ref).max(initial=0), 1e-300))
    if bad.any():
        i = int(np.nonzero(bad)[0][0])
        fail('%s: value %d is %r, Burg gives %r (N=%d, M=%d)' % (what, i, float(r[i]), float(ref[i]), n, m))
