"""Distributions of the displacements along a direction."""
import numpy as np
from dpv.concrete import lib, oracles as O
from dpv.concrete.lib import fail, close, equal, call, mix

FUNCTIONS = ['coordinates.trajectory_projection', 'Quasiparticle.get_atomic_displacements', 'Quasiparticle.write_atomic_displacements']
SUPS = [[1, 1, 1], [2, 1, 1], [1, 2, 3], [2, 2, 1]]


def cases(rng, tier):
    for rep in range(60 if tier == 'quick' else 900):
        yield {'cell': lib.CELLS[rep % 6], 'sup': SUPS[rep % 4], 'cent': ['P', 'F', 'C', 'I', 'Z2'][rep % 5], 'memmap': rep % 5 == 3, 'nbasis': 1 + rep % 3,
               'wrap': rep % 2 == 1, 'kind': ['returned', 'file'][rep // 2 % 2], 'axis': rep % 4, 'rep': rep}
    yield {'cell': 'cubic', 'sup': [2, 1, 1], 'cent': 'P', 'memmap': False, 'nbasis': 2, 'wrap': False, 'kind': 'label', 'axis': 3, 'rep': 999999}


def check(case):
    rng = mix(case)
    sup = case['sup']
    st, data = lib.centred_structure(rng, case['nbasis'], case['cent'], case['cell'])
    amp = float(rng.choice([.02, .1, .25]))
    dyn, d = lib.dynamics(st, data, sup, rng, steps=int(rng.integers(2, 12)), wrap=case['wrap'], memmap=case['memmap'], amp=amp)
    if np.abs(d['disp'] @ np.linalg.inv(d['cell'])).max() > .49:
        raise lib.Skip('displacements beyond half a cell')
    from dynaphopy import Quasiparticle
    qp = call(Quasiparticle, dyn)
    bins = int(rng.integers(1, 40))
    if rng.random() < .7:
        qp.parameters.number_of_bins_histogram = bins
    else:
        bins = int(qp.parameters.number_of_bins_histogram)
    direction = rng.normal(size=3) * rng.uniform(.1, 20)
    if case['axis'] < 3:
        direction = np.eye(3)[case['axis']] * float(rng.choice([1, 2, -1, .3]))
    u = direction / np.linalg.norm(direction)
    types = data['types'][lib.super_index(data, sup)]
    n = len(set(data['types']))
    x = [(d['disp'][:, types == t] @ u).ravel() for t in range(n)]
    lo, hi = min(map(np.min, x)), max(map(np.max, x))
    w = (hi - lo) / bins
    want = []
    for v in x:
        k = (v - lo) / w
        near = np.abs(k - np.round(k)) < 1e-6
        if (near & (np.round(k) > .5) & (np.round(k) < bins - .5)).any():
            raise lib.Skip('value at a limit of a bin')
        k = np.clip(np.floor(k), 0, bins - 1)
        want.append(np.array([(k == j).sum() for j in range(bins)]) / (len(v) * w))
    want = np.array(want)
    given = direction.tolist() if rng.random() < .5 else direction.copy()
    if case['kind'] == 'returned':
        r = call(qp.get_atomic_displacements, given)
        close(np.array(r[0]), want, rtol=1e-6, what='distributions')
        call(qp.get_atomic_displacements, rng.normal(size=3))
        r = call(qp.get_atomic_displacements, given)
        close(np.array(r[0]), want, rtol=1e-6, what='distributions requested again')
        close(np.array(given), direction, what='direction afterwards')
    else:
        open('dist.dat', 'w').write('1 2 3\n' * 90)
        call(qp.write_atomic_displacements, given, 'dist.dat')
        r = np.loadtxt('dist.dat', ndmin=2)
        equal(r.shape, (bins, n + 1), 'rows and columns of the file')
        close(r[:, 1:], want.T, rtol=1e-6, what='distributions in the file')
        centre = lo + (np.arange(bins) + .5) * w
        good = np.abs(r[:, 0] - centre).max() < 6e-5
        shifted = np.abs(r[:, 0] - (centre - w)).max() < 6e-5
        if not good and not shifted:
            fail('rows of the file of distributions: labels %s, the bins are centred at %s' % (r[:3, 0], centre[:3]))
        if not good and case['kind'] == 'label':
            fail('the rows of the file of distributions are labelled one bin width below the centres of the bins')
    close(np.array(call(dyn.get_relative_trajectory)), d['disp'] + 0j, atol=1e-8, what='displacements afterwards')
