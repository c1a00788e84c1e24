"""Driver run in a process of its own (address sanitizer preloaded, or plain): calls the native kernels on the
problems described on the command line and prints a hash of every result."""
import sys, json, hashlib
import numpy as np


def problems(spec):
    rng = np.random.default_rng(spec['seed'])
    for k in range(spec['count']):
        kind = ['mem', 'corr', 'disp'][k % 3] if spec.get('only') is None else spec['only']
        big = spec.get('big')
        if kind == 'mem':
            n = int(rng.integers(0, 40)) if not big else int(rng.integers(200, 400))
            m = int(rng.choice([0, 1, 2, max(n - 2, 1), n, n + 3, int(rng.integers(0, 60))])) if not big else 30
            nf = int(rng.integers(0, 7)) if not big else 400
            v = rng.normal(size=n) + 1j * rng.normal(size=n)
            if rng.random() < .2:
                v = v.real + 0j
            if rng.random() < .1:
                v = v * 0
            yield 'mem', (rng.uniform(0, 20, nf), v, 0.01, m)
        elif kind == 'corr':
            n = int(rng.integers(0, 40)) if not big else int(rng.integers(60, 120))
            s = int(rng.integers(1, 45)) if not big else int(rng.integers(1, 4))
            nf = int(rng.integers(0, 7)) if not big else 300
            yield 'corr', (rng.uniform(0, 20, nf), rng.normal(size=n) + 1j * rng.normal(size=n), 0.01, s, int(rng.integers(2)))
        else:
            d = int(rng.choice([3, 3, 3, 1, 2, 4]))
            n = int(rng.integers(0, 30))
            cell = np.eye(d) * 4 + rng.uniform(-1, 1, (d, d))
            if spec.get('shapes') and rng.random() < .3:
                # shapes that do not agree: an error or a result, but no access outside of the arrays
                dims = [int(x) for x in rng.integers(1, 6, 4)]
                yield 'misfit', (rng.normal(size=(n, dims[0])) * 6 + 0j, rng.normal(size=dims[1]), np.eye(8)[:dims[2], :dims[3]] * 4 + rng.uniform(-1, 1, (dims[2], dims[3])))
                continue
            yield 'disp', (rng.normal(size=(n, d)) * 6 + 0j, rng.normal(size=d), cell)


def run(kind, a):
    from dynaphopy.power_spectrum import mem, correlation
    from dynaphopy import displacements
    a = tuple(x.copy() if isinstance(x, np.ndarray) else x for x in a)
    keep = [x.copy() if isinstance(x, np.ndarray) else x for x in a]
    for x in a:
        if isinstance(x, np.ndarray):
            x.flags.writeable = False
    if kind == 'mem':
        r = mem.mem(a[0], a[1], a[2], coefficients=a[3])
    elif kind == 'corr':
        r = correlation.correlation_par(a[0], a[1], a[2], step=a[3], integration_method=a[4])
    elif kind == 'misfit':
        try:
            r = displacements.atomic_displacements(a[0], a[1], a[2])
        except Exception:
            r = np.zeros(1)
    else:
        r = displacements.atomic_displacements(a[0], a[1], a[2])
    for x, y in zip(a, keep):
        if isinstance(x, np.ndarray) and not np.array_equal(x, y):
            print('INPUT MODIFIED by', kind)
            sys.exit(3)
    return np.array(r)


def strided(kind, a):
    """the same call on non contiguous arguments (the kernel has to convert them)"""
    out = []
    for x in a:
        if isinstance(x, np.ndarray):
            y = np.zeros(tuple(2 * s for s in x.shape), dtype=x.dtype)
            y[tuple(slice(None, None, 2) for _ in x.shape)] = x
            x = y[tuple(slice(None, None, 2) for _ in x.shape)]
        out.append(x)
    from dynaphopy.power_spectrum import mem, correlation
    from dynaphopy import displacements
    if kind == 'mem':
        return mem.mem(out[0], out[1], out[2], coefficients=out[3])
    if kind == 'corr':
        return correlation.correlation_par(out[0], out[1], out[2], step=out[3], integration_method=out[4])
    return displacements.atomic_displacements(*out)


def main():
    spec = json.loads(sys.argv[1])
    out = []
    if spec['mode'] == 'hash':
        for kind, a in problems(spec):
            print('RUN', kind, [x.shape if isinstance(x, np.ndarray) else x for x in a], flush=True)
            r = run(kind, a)
            if spec.get('strided') and kind != 'misfit':
                r2 = np.array(strided(kind, a))
                if not np.array_equal(r, r2, equal_nan=True):
                    print('DIFFERENT RESULT for a strided argument', kind); sys.exit(3)
            out.append(kind + hashlib.sha1(np.ascontiguousarray(r + 0.0).tobytes()).hexdigest()[:12])
        print('HASHES', json.dumps(out))
    else:
        import ctypes, gc

        class M(ctypes.Structure):
            _fields_ = [(n, ctypes.c_size_t) for n in ('arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks '
                                                        'fordblks keepcost').split()]
        libc = ctypes.CDLL(None); libc.mallinfo2.restype = M

        def used():
            gc.collect()
            i = libc.mallinfo2()
            return i.uordblks + i.hblkhd
        rng = np.random.default_rng(1)
        n = 2000
        cases = {'mem': (rng.uniform(0, 1, 3), rng.normal(size=n) + 1j * rng.normal(size=n), 0.01, 5),
                 'memz': (rng.uniform(0, 1, 3), np.zeros(n, complex), 0.01, 300),
                 'corr': (rng.uniform(0, 1, 3), rng.normal(size=n) + 1j, 0.01, 500, 1),
                 'disp': (rng.normal(size=(n, 3)) + 0j, rng.normal(size=3), np.eye(3) * 4)}
        grow = {}
        for k, a in cases.items():
            kind = k[:4].replace('memz', 'mem')
            for f, name in ((run, k), (strided, k + ' strided')):
                for _ in range(3):
                    f(kind, a)
                u = used()
                for _ in range(40):
                    f(kind, a)
                grow[name] = (used() - u) / 40
        print('GROWTH', json.dumps(grow))


main()
