"""Native kernels: sanitizers, allocator contents, leaks, and number of threads."""
import os, sys, json, subprocess, shutil, tempfile
from dpv import common
from dpv.concrete.lib import fail

FUNCTIONS = ['c/mem.c', 'c/correlation.c', 'c/displacements.c']
CASE_LIMIT = 140
PROBE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'native_probe.py')


def cases(rng, tier):
    reps = 1 if tier == 'quick' else 12
    for rep in range(reps):
        yield {'kind': 'asan', 'count': 240, 'rep': rep}
        yield {'kind': 'fill', 'count': 240, 'rep': rep}
        yield {'kind': 'threads', 'count': 12, 'rep': rep, 'big': True, 'only': 'mem'}
        yield {'kind': 'threads', 'count': 12, 'rep': rep, 'big': True, 'only': 'corr'}
        if rep == 0:
            yield {'kind': 'leak', 'rep': 0}


def probe(parent, spec, extra):
    env = {k: v for k, v in os.environ.items() if not k.startswith(('OMP', 'LD_', 'ASAN', 'MALLOC', 'GLIBC'))}
    env['PYTHONPATH'] = parent + ':' + common.VERIF
    env.update(extra)
    p = subprocess.run([common.VENV_PY, PROBE, json.dumps(spec)], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=120)
    return p.returncode, p.stdout.decode(errors='replace')


def line(out, tag):
    for l in out.splitlines():
        if l.startswith(tag):
            return json.loads(l[len(tag):])
    return None


def last(out):
    runs = [l for l in out.splitlines() if l.startswith('RUN')]
    return runs[-1] if runs else ''


def check(case):
    parent = os.environ['DPV_PKG']
    spec = {k: case[k] for k in ('count', 'big', 'only') if k in case}
    spec.update(seed=case['seed'], mode='hash')
    if case['kind'] == 'asan':
        tmp = tempfile.mkdtemp(prefix='asan-', dir=parent)
        sp = common.build(tmp, sanitize=True)
        libs = [subprocess.check_output(['gcc', '-print-file-name=' + l], text=True).strip()
                for l in ('libasan.so', 'libubsan.so')]
        spec['strided'] = True
        spec['shapes'] = True
        rc, out = probe(sp, spec, {'LD_PRELOAD': ' '.join(libs), 'OMP_NUM_THREADS': '2',
                                   'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1',
                                   'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=0'})
        shutil.rmtree(tmp, ignore_errors=True)
        bad = [l for l in out.splitlines() if 'runtime error' in l and ('index' in l or 'out of bounds' in l or 'null pointer' in l)]
        if rc or line(out, 'HASHES') is None or bad:
            i = out.find('ERROR: AddressSanitizer')
            fail('memory error in a native kernel (last call %s, code %s): %s' % (last(out), rc,
                 out[i:i + 1500] if i >= 0 else '\n'.join(bad[:5]) + out[-800:]))
    elif case['kind'] == 'fill':
        ref = None
        for fill in ('0', '85', '170'):
            rc, out = probe(parent, spec, {'MALLOC_PERTURB_': fill, 'OMP_NUM_THREADS': '1',
                                           'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0'})
            h = line(out, 'HASHES')
            if rc or h is None:
                fail('native kernel failed with allocator fill %s (last call %s, code %s): %s' % (fill, last(out), rc, out[-800:]))
            if ref is not None and h != ref:
                k = [i for i in range(len(h)) if h[i] != ref[i]][0]
                runs = [l for l in out.splitlines() if l.startswith('RUN')]
                fail('the result of %s depends on the content of uninitialised or freed memory' % runs[k])
            ref = h
    elif case['kind'] == 'threads':
        ref = None
        for t in (1, 2, 8, 8, 5, 8):
            rc, out = probe(parent, spec, {'OMP_NUM_THREADS': str(t), 'OMP_DYNAMIC': 'false'})
            h = line(out, 'HASHES')
            if rc or h is None:
                fail('native kernel failed with %d threads (code %s): %s' % (t, rc, out[-800:]))
            if ref is not None and h != ref:
                k = [i for i in range(len(h)) if h[i] != ref[i]][0]
                runs = [l for l in out.splitlines() if l.startswith('RUN')]
                fail('the result of %s differs between 1 and %d threads' % (runs[k], t))
            ref = h
    else:
        rc, out = probe(parent, {'mode': 'leak'}, {'OMP_NUM_THREADS': '1'})
        g = line(out, 'GROWTH')
        if rc or g is None:
            fail('leak probe failed: ' + out[-800:])
        for k, v in g.items():
            if v > 40:
                fail('every call of %s leaves %.0f bytes allocated' % (k, v))
