"""Calculation settings and input files."""
import os
import numpy as np
from dpv.concrete import lib
from dpv.concrete.lib import fail, close, equal, call, mix

FUNCTIONS = ['Parameters', 'Parameters.get_data_from_dict', 'iofile.read_parameters_from_input_file']


def names():
    from dynaphopy.parameters import Parameters
    return [n for n in dir(Parameters) if isinstance(getattr(Parameters, n), property)]


def cases(rng, tier):
    from dynaphopy.parameters import Parameters
    for n in names():
        yield {'kind': 'one', 'name': n}
    for rep in range(60 if tier == 'quick' else 1500):
        yield {'kind': ['sequence', 'dict', 'file', 'file'][rep % 4], 'rep': rep}


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all(a == b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def snapshot(p):
    return {n: getattr(p, n) for n in names()}


def compare(p, want, what):
    for n, v in want.items():
        if not same(getattr(p, n), v):
            fail('%s: setting %s is %r instead of %r' % (what, n, getattr(p, n), v))


def value(rng, n, old):
    k = int(rng.integers(3))
    if isinstance(old, bool):
        return not old
    if isinstance(old, np.ndarray) or 'vector' in n or 'range' in n and 'band' not in n:
        return [rng.uniform(0, 9, 3), list(rng.uniform(0, 9, 4)), tuple(rng.uniform(0, 9, 3))][k]
    if isinstance(old, float):
        return float(rng.uniform(0, 3))
    if isinstance(old, int):
        return int(rng.integers(2, 999))
    return [object(), {'ranges': [rng.uniform(size=(2, 3))]}, (3, 4, int(rng.integers(99)))][k]


def check(case):
    from dynaphopy.parameters import Parameters
    rng = mix(case)
    p = Parameters()
    want = snapshot(p)
    for n in names():
        if getattr(Parameters, n).fset is None:
            fail('setting %s cannot be changed' % n)
    if case['kind'] == 'one':
        n = case['name']
        for k in range(3):
            v = value(rng, n, want[n])
            setattr(p, n, v)
            want[n] = v
            compare(p, want, 'after setting %s' % n)
        return
    if case['kind'] == 'sequence':
        done = []
        for k in range(int(rng.integers(2, 12))):
            n = str(rng.choice(names()))
            v = value(rng, n, want[n])
            setattr(p, n, v)
            want[n] = v
            done.append(n)
            compare(p, want, 'after setting %s' % done)
        return
    if case['kind'] == 'dict':
        some = [str(x) for x in rng.permutation(names())[:int(rng.integers(1, 8))]]
        d = {}
        for n in some:
            v = value(rng, n, want[n])
            d['_' + n] = v
            want[n] = v
        d['structure_file_name_poscar'] = 'x'
        before = dict(d)
        p.get_data_from_dict(d)
        compare(p, want, 'after reading %s from a dictionary' % some)
        if not same(before, d):
            fail('the dictionary of settings is changed')
        return
    file_case(rng, p, want)


def file_case(rng, p, want):
    import dynaphopy.interface.iofile as io
    exp = {'structure_file_name_poscar': 'POSCAR'}
    sections = []
    num = lambda x: ('%.6f' % x).rstrip('0')

    def maybe(x=.6):
        return rng.random() < x
    if maybe():
        f = 'dir.%d/POSCAR_%d' % tuple(rng.integers(9, size=2))
        sections.append(['STRUCTURE FILE POSCAR', ('  ' if maybe(.3) else '') + f + (' ' if maybe(.3) else '')])
        exp['structure_file_name_poscar'] = f
    if maybe(.3):
        sections.append(['STRUCTURE FILE OUTCAR', 'OUTCAR-1'])
        exp['structure_file_name_outcar'] = 'OUTCAR-1'
    if maybe():
        sections.append(['FORCE SETS', 'FORCE_SETS_2x'])
        exp['force_sets_file_name'] = 'FORCE_SETS_2x'
    elif maybe():
        sections.append(['FORCE CONSTANTS', 'FORCE_CONSTANTS_3'])
        exp['force_constants_file_name'] = 'FORCE_CONSTANTS_3'
    if maybe():
        m = np.round(rng.uniform(-1, 1, (3, 3)), 6)
        sections.append(['PRIMITIVE MATRIX'] + ['  '.join(num(x) for x in r) for r in m])
        exp['_primitive_matrix'] = m
    if maybe():
        m = rng.integers(-3, 4, (3, 3))
        sections.append([str(rng.choice(['SUPERCELL MATRIX', 'SUPERCELL MATRIX PHONOPY']))] + [' '.join(str(x) for x in r) for r in m])
        exp['supercell_phonon'] = m
    if maybe():
        m = rng.integers(1, 60, 3)
        sections.append(['MESH PHONOPY', ' '.join(str(x) for x in m)])
        exp['_mesh_phonopy'] = m
    if maybe(.75):
        k = int(rng.integers(1, 6))
        b = np.round(rng.uniform(-1, 1, (k, 2, 3)), 6)
        labelled = maybe()
        lab = [('%s%d' % (rng.choice(['GAMMA', 'X', 'K']), i), '%s' % rng.choice(['L', 'M', 'W2'])) for i in range(k)]
        lines = []
        for i in range(k):
            sep = ', ' if maybe() else '  '
            l = sep.join(num(x) for x in b[i, 0]) + '    ' + sep.join(num(x) for x in b[i, 1])
            lines.append(l + (('  : %s, %s' if maybe() else ':%s,%s') % lab[i] if labelled else ''))
        sections.append(['BANDS'] + lines)
        exp['_band_ranges'] = {'ranges': [x for x in b]}
        if labelled:
            exp['_band_ranges']['labels'] = lab
    rng.shuffle(sections)
    glue = '\n\n' if maybe(.8) else '\n'
    text = glue.join('\n'.join(s) for s in sections)
    if maybe(.4):
        text = '# STRUCTURE FILE OUTCAR comment\n' + text
    with open('input', 'w') as f:
        f.write(text + ('\n' if maybe() else ''))
    if not text.strip():
        return
    got = call(io.read_parameters_from_input_file, 'input')
    if sorted(got) != sorted(exp):
        fail('the input file\n%s\ngives the settings %s instead of %s' % (text, sorted(got), sorted(exp)))
    for k in exp:
        if not same(got[k], exp[k]):
            fail('setting %s read from\n%s\nis %r instead of %r' % (k, text, got[k], exp[k]))
    p.get_data_from_dict(got)
    for k in exp:
        if k.startswith('_') and k[1:] in want:
            want[k[1:]] = exp[k]
    compare(p, want, 'after reading an input file')
