"""Thermal functions of harmonic oscillators."""
import numpy as np
from scipy import constants as K
from scipy.integrate import simpson
from dpv.concrete import lib
from dpv.concrete.lib import fail, close, equal, call, mix

FUNCTIONS = ['thermal_properties.get_total_energy', 'thermal_properties.get_free_energy', 'thermal_properties.get_entropy',
             'thermal_properties.get_cv', 'thermal_properties.get_dos']
H = K.h * 1e12
RT = 2e-5     # the physical constants of the code have eight digits


def cases(rng, tier):
    for rep in range(90 if tier == 'quick' else 1500):
        yield {'rep': rep, 'n': int([2, 3, 8, 51, 400, 21][rep % 6]), 'grid': ['linear', 'uneven', 'log'][rep // 2 % 3],
               'T': float([300, 5, 50, 1500, 12.5, 0][rep % 6] or 77)}


def check(case):
    rng = mix(case)
    import dynaphopy.analysis.thermal_properties as t
    n, T = case['n'], case['T']
    top = min(40.0, 690 * 2 * K.k * T / H)
    f = {'linear': np.linspace(0.01, top, n), 'uneven': np.sort(rng.uniform(0.01, top, n)), 'log': np.geomspace(1e-3, top, n)}[case['grid']]
    if np.min(np.diff(f)) <= 1e-9:
        return
    g = rng.uniform(0, 3, n) * (rng.random(n) < .8)
    g2 = rng.uniform(0, 3, n)
    f0, g0 = f.copy(), g.copy()

    def quad(y):
        return simpson(y, x=f) * K.N_A
    x = H * f / (K.k * T)
    # formulas in overflow free form
    e1 = H * f * (0.5 + np.exp(-x) / -np.expm1(-x))
    f1 = H * f / 2 + K.k * T * np.log(-np.expm1(-x))
    s1 = (e1 - f1) / T
    c1 = K.k * x ** 2 * np.exp(-x) / np.expm1(-x) ** 2
    fl = quad(np.abs(g * f1)); el = quad(np.abs(g * e1))
    E = float(call(t.get_total_energy, T, f, g)); F = float(call(t.get_free_energy, T, f, g))
    S = float(call(t.get_entropy, T, f, g)); C = float(call(t.get_cv, T, f, g))
    weights = np.abs(simpson(np.eye(n), x=f, axis=1))        # some weights of uneven grids are negative
    at = lambda w: RT * np.sum(weights * np.abs(w) * g) * K.N_A * 3 + 1e-9
    at0 = at
    close(E, quad(g * e1) / 1000, rtol=RT, atol=at0(e1) / 1000, what='total energy at %g K' % T)
    close(F, quad(g * f1) / 1000, rtol=RT, atol=at0(f1) / 1000, what='free energy at %g K' % T)
    close(S, quad(g * s1), rtol=RT, atol=at0(e1) / T * .1 + at0(s1), what='entropy at %g K' % T)
    close(C, quad(g * c1), rtol=RT, atol=at0(c1) + 1e-9, what='heat capacity at %g K' % T)
    close(F, E - T * S / 1000, rtol=1e-6, atol=(abs(E) + abs(T * S / 1000)) * 1e-6 + 1e-9, what='free energy against energy - temperature*entropy')
    h = T * 1e-4
    num = (float(call(t.get_total_energy, T + h, f, g)) - float(call(t.get_total_energy, T - h, f, g))) / (2 * h) * 1000
    close(C, num, rtol=1e-4, atol=1e-6 + abs(E) * 1e-8 / h, what='heat capacity against the derivative of the energy')
    a, b = rng.uniform(.3, 2, 2)
    for name in ('get_total_energy', 'get_free_energy', 'get_entropy', 'get_cv'):
        fn = getattr(t, name)
        r = float(call(fn, T, f, a * g + b * g2))
        r2 = a * float(call(fn, T, f, g)) + b * float(call(fn, T, f, g2))
        close(r, r2, rtol=1e-9, atol=1e-9 * (1 + abs(E)), what='linearity of ' + name)
    # density of states from a power spectrum
    ps = rng.uniform(0, 2, n); size = int(rng.integers(1, 50))
    close(np.array(call(t.get_dos, T, f, ps, size)), 2 * ps * K.e / (K.k * T) / size, rtol=RT, what='density of states')
    close(np.array(call(t.get_dos, T, f, ps, size, bose_einstein_statistics=True)), 2 * ps * K.e / e1 / size, rtol=RT * 3,
          what='density of states with quantum statistics')
    equal(f, f0, 'frequencies after the calls'); equal(g, g0, 'density of states after the calls')
    # a leading zero frequency contributes nothing to the free energy
    fz = np.concatenate([[0.], f])
    gz = np.concatenate([[0.], g])
    w = simpson(np.concatenate([[0.], g * f1]), x=fz) * K.N_A / 1000
    close(float(call(t.get_free_energy, T, fz, gz)), w, rtol=RT, atol=at0(f1) / 300, what='free energy with a zero frequency')
