"""Shared generators and helpers of the concrete side of the contracts.

Runs inside the interpreter of the code under verification, with the package freshly built from
/repo on its path."""
import contextlib, io, os, sys, warnings, itertools, inspect
import numpy as np
warnings.simplefilter('ignore')
import matplotlib
matplotlib.use('Agg')


class Violation(Exception):
    pass


def fail(msg):
    raise Violation(msg)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def call(f, *a, **k):
    """Calls the code under verification without its printed output."""
    with quiet():
        return f(*a, **k)


def reset_parameters():
    import dynaphopy.parameters as p
    for name in dir(p):
        o = getattr(p, name)
        inst = getattr(o, '_instances', None)
        if isinstance(inst, dict):
            inst.clear()


def close(a, b, rtol=1e-8, atol=1e-10, what=''):
    a = np.asarray(a); b = np.asarray(b)
    if a.shape != b.shape:
        fail('%s: shape %s instead of %s' % (what, a.shape, b.shape))
    scale = max(float(np.max(np.abs(b))) if b.size else 0.0, 0.0)
    bad = ~(np.abs(a - b) <= atol + rtol * scale)
    if b.size and bad.any():
        i = np.unravel_index(int(np.argmax(bad)), bad.shape) if bad.ndim else ()
        i = tuple(int(x) for x in i)
        fail('%s: element %s is %r, the specification gives %r (%d of %d elements differ)'
             % (what, i, a[i].item(), b[i].item(), int(bad.sum()), b.size))


def equal(a, b, what=''):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a_, b_ = np.asarray(a), np.asarray(b)
        ok = a_.shape == b_.shape and bool(np.all(a_ == b_))
    else:
        ok = a == b
    if not ok:
        fail('%s: %r instead of %r' % (what, a, b))


def same_within(v, msg):
    if not v:
        fail(msg)


def cell_from(rng, kind, scale=4.0):
    if not isinstance(kind, str):
        return np.array(kind, dtype=float)
    if kind == 'cubic':
        return np.diag([scale] * 3) * rng.uniform(0.8, 1.2)
    if kind == 'ortho':
        return np.diag(rng.uniform(0.7, 1.5, 3) * scale)
    if kind == 'hex':
        a, c = rng.uniform(0.8, 1.2, 2) * scale
        return np.array([[a, 0, 0], [-a / 2, a * np.sqrt(3) / 2, 0], [0, 0, c * 1.3]])
    if kind == 'skew_ut':
        c = np.diag(rng.uniform(0.8, 1.3, 3) * scale)
        c[0, 1], c[0, 2], c[1, 2] = rng.uniform(-0.45, 0.45, 3) * scale
        return c
    if kind == 'skew_lt':
        c = np.diag(rng.uniform(0.8, 1.3, 3) * scale)
        c[1, 0], c[2, 0], c[2, 1] = rng.uniform(-0.45, 0.45, 3) * scale
        return c
    # general triclinic, right handed, not too flat
    while True:
        c = np.diag(rng.uniform(0.8, 1.3, 3) * scale) + rng.uniform(-0.35, 0.35, (3, 3)) * scale
        if np.linalg.det(c) > 0.3 * scale ** 3:
            return c


CELLS = ['triclinic', 'hex', 'skew_lt', 'skew_ut', 'ortho', 'cubic']
ELEMENTS = [('Si', 28.0855), ('O', 15.9994), ('Mg', 24.3050), ('N', 14.0067), ('Ga', 69.723), ('Cu', 63.546)]


def structure(rng, natoms=3, cell='triclinic', masses='elements', primitive=None, scaled=True, charges=False,
              kinds=None):
    """A structure with well separated atoms; returns (Structure, dict of the plain data)."""
    from dynaphopy.atoms import Structure
    c = cell_from(rng, cell) if isinstance(cell, str) else np.array(cell, dtype=float)
    while True:
        s = rng.uniform(0.02, 0.98, (natoms, 3))
        d = s[:, None] - s[None]
        d -= np.round(d)
        r = np.linalg.norm(d @ c, axis=2) + np.eye(natoms) * 9
        if r.min() > 0.6:
            break
    idx = rng.integers(0, len(ELEMENTS), natoms) if kinds is None else np.array(kinds)
    el = [ELEMENTS[i][0] for i in idx]
    ms = [ELEMENTS[i][1] for i in idx]
    return make_structure(c, s, el, None if masses == 'elements' else list(rng.uniform(1, 100, natoms)),
                          primitive, scaled, list(rng.uniform(-2, 2, natoms)) if charges else None, ms)


def make_structure(cell, scaled_pos, elements, masses=None, primitive=None, scaled=True, charges=None, el_masses=None):
    from dynaphopy.atoms import Structure
    kw = dict(cell=np.array(cell), atomic_elements=list(elements))
    if scaled:
        kw['scaled_positions'] = np.array(scaled_pos)
    else:
        kw['positions'] = np.array(scaled_pos) @ np.array(cell)
    if masses is not None:
        kw['masses'] = np.array(masses)
    if charges is not None:
        kw['charges'] = list(charges)
    if primitive is not None:
        kw['primitive_matrix'] = np.array(primitive)
    st = Structure(**kw)
    m = np.array(masses if masses is not None else el_masses, dtype=float)
    return st, dict(cell=np.array(cell, dtype=float), scaled=np.array(scaled_pos, dtype=float),
                    positions=np.array(scaled_pos) @ np.array(cell), elements=list(elements), masses=m,
                    charges=charges, primitive=np.eye(3) if primitive is None else np.array(primitive, dtype=float))


CENTRING = {  # unit cell -> (primitive matrix, extra lattice points)
    'P': (np.eye(3), [[0, 0, 0]]),
    'F': (np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]), [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]]),
    'I': (np.array([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]]), [[0, 0, 0], [.5, .5, .5]]),
    'C': (np.array([[.5, .5, 0], [-.5, .5, 0], [0, 0, 1.]]), [[0, 0, 0], [.5, .5, 0]]),
    'Z2': (np.diag([1, 1, .5]), [[0, 0, 0], [0, 0, .5]]),
}


def unit_vectors(rng, n):
    v = rng.normal(size=(n, 3))
    return v / np.linalg.norm(v, axis=1)[:, None]


def centred_structure(rng, nbasis=2, centring='F', cell='triclinic', masses='elements', kinds=None, shuffle=True,
                      scaled=True, charges=False):
    """Structure whose unit cell holds several primitive cells; atoms possibly interleaved.
    data['types'] are the classes by first appearance."""
    prim, points = CENTRING[centring]
    c = cell_from(rng, cell)
    while True:
        b = rng.uniform(0.02, 0.98, (nbasis, 3))
        s = np.array([(x + p) for x in b for p in points])
        d = s[:, None] - s[None]
        d -= np.round(d)
        r = np.linalg.norm(d @ c, axis=2) + np.eye(len(s)) * 9
        if r.min() > 0.5:
            break
    owner = np.repeat(np.arange(nbasis), len(points))
    kinds = rng.integers(0, len(ELEMENTS), nbasis) if kinds is None else np.array(kinds)
    ms = np.array([ELEMENTS[k][1] for k in kinds]) if masses == 'elements' else rng.uniform(1, 100, nbasis)
    if shuffle:
        o = rng.permutation(len(s))
        s, owner = s[o], owner[o]
    s = s - np.floor(s)
    first = []
    for x in owner:
        if x not in first:
            first.append(x)
    types = np.array([first.index(x) for x in owner])
    el = [ELEMENTS[kinds[x]][0] for x in owner]
    st, data = make_structure(c, s, el, None if masses == 'elements' else ms[owner], prim, scaled,
                              list(rng.uniform(-2, 2, len(s))) if charges else None, ms[owner])
    data['types'] = types
    return st, data


def images(data, sup):
    """Specification of the supercell order: (unit cell atom, shift) of every atom."""
    out = []
    for k in range(len(data['scaled'])):
        for z in range(sup[2]):
            for y in range(sup[1]):
                for x in range(sup[0]):
                    out.append((k, np.array([x, y, z])))
    return out


def super_positions(data, sup):
    return np.array([data['positions'][k] + n @ data['cell'] for k, n in images(data, sup)])


def super_index(data, sup):
    return np.array([k for k, n in images(data, sup)])


def dynamics(st, data, sup, rng, steps=11, amp=0.2, dt=0.002, wrap=False, velocity=None, memmap=False, energy=True,
             scaled=False, trajectory=True, t0=0.0):
    """Dynamics on the supercell with random displacements. Returns (Dynamics, plain data)."""
    from dynaphopy.dynamics import Dynamics
    pos = super_positions(data, sup)
    cell = np.diag(sup) @ data['cell']
    disp = rng.uniform(-amp, amp, (steps, len(pos), 3))
    traj = pos + disp
    if wrap:
        traj = traj + rng.integers(-2, 3, traj.shape[:2] + (1,)) * 0 + (rng.integers(-2, 3, traj.shape) @ cell)
    time = t0 + np.arange(steps) * dt
    kw = dict(structure=st, time=time, supercell=cell, memmap=memmap)
    en = rng.uniform(-1, 1, steps)
    if energy:
        kw['energy'] = en.copy()
    if trajectory:
        if scaled:
            kw['scaled_trajectory'] = np.array(traj @ np.linalg.inv(cell), dtype=complex)
        else:
            kw['trajectory'] = np.array(traj, dtype=complex)
    vel = None
    if velocity is not None:
        vel = rng.normal(size=traj.shape) if velocity is True else velocity
        kw['velocity'] = np.array(vel, dtype=complex)
    dyn = Dynamics(**kw)
    return dyn, dict(pos=pos, cell=cell, disp=disp, traj=traj, time=time, energy=en, vel=vel, dt=dt)


def spring_fc(data, sup, rng=None, k0=6.0, unstable=False):
    """Symmetric force constants of central springs plus on-site terms with the acoustic sum rule, in the
    atom order of phonopy for this unit cell and supercell."""
    from phonopy import Phonopy
    from phonopy.structure.atoms import PhonopyAtoms
    bulk = PhonopyAtoms(symbols=data['elements'], scaled_positions=data['scaled'], cell=data['cell'])
    ph = Phonopy(bulk, np.diag(sup), primitive_matrix=data['primitive'])
    sc = ph.supercell
    c = np.array(sc.cell); s = np.array(sc.scaled_positions); n = len(s)
    fc = np.zeros((n, n, 3, 3))
    shifts = np.array(list(itertools.product(range(-4, 5), repeat=3)))
    rc = 1.02 * max(np.linalg.norm(data["cell"], axis=1)) + 0.3
    for i in range(n):
        for j in range(n):
            for sh in shifts:
                r = (s[j] + sh - s[i]) @ c
                l = np.linalg.norm(r)
                if l < 1e-8 or l > rc:
                    continue
                k = k0 * np.exp(-0.8 * l)
                kt = 0.12 * k
                fc[i, j] -= (k - kt) * np.outer(r, r) / l ** 2 + kt * np.eye(3)
    for i in range(n):
        fc[i, i] -= fc[i].sum(axis=0)
    return fc


def forced_structure(rng, centring='P', nbasis=2, cell='triclinic', fc_sup=(1, 1, 1), kinds=None, shuffle=False,
                     masses='elements'):
    from dynaphopy.interface.phonopy_link import ForceConstants
    while True:
        st, data = centred_structure(rng, nbasis, centring, cell, masses, kinds, shuffle)
        fc = spring_fc(data, fc_sup)
        break
    st.set_force_constants(ForceConstants(fc, supercell=np.diag(fc_sup)))
    data['fc'] = fc
    return st, data


class Skip(Exception):
    """A named part of the code this case is about is not there any more."""


def need(module, *names):
    """Looks up functions that are not part of the public interface; a renamed helper skips the case."""
    import importlib
    m = importlib.import_module(module)
    out = []
    for n in names:
        o = m
        for part in n.split('.'):
            if not hasattr(o, part):
                raise Skip('%s.%s does not exist' % (module, n))
            o = getattr(o, part)
        out.append(o)
    return out[0] if len(out) == 1 else out


def product_cases(tier, reps_quick, reps_thorough, **axes):
    """Systematic product of configuration axes, repeated with fresh seeds."""
    keys = list(axes)
    for rep in range(reps_quick if tier == 'quick' else reps_thorough):
        for combo in itertools.product(*[axes[k] for k in keys]):
            c = dict(zip(keys, combo))
            c['rep'] = rep
            yield c


def mix(case):
    return np.random.default_rng([int(case['seed']), int(case.get('rep', 0))])
