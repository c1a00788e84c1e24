"""Units of spectra, energies and temperatures."""
import contextlib, io, re
import numpy as np
from dpv.concrete import lib, oracles as O
from dpv.concrete.lib import fail, close, equal, call, mix

FUNCTIONS = ['unit_conversion of the four spectra', 'energy.boltzmann_distribution', 'Quasiparticle.get_temperature',
             'fitting.phonon_fitting_analysis (occupation, temperature)']
EV = 1.66053906660e-27 * 1e4 / 1.602176634e-19      # u A^2 / ps^2 in eV
KB = 1.380649e-23 / (1.66053906660e-27 * 1e4)       # Boltzmann's constant in u A^2 / (ps^2 K)
H = 4.135667696e-3                                  # eV ps
KBEV = 8.617333262e-5                               # eV / K
CASE_LIMIT = 120


def cases(rng, tier):
    from dynaphopy.power_spectrum import power_spectrum_functions as F
    n = 24 if tier == 'quick' else 400
    for rep in range(n):
        yield {'kind': 'factor', 'alg': [0, 1, 2, 3][rep % 4], 'rep': rep}
        yield {'kind': 'integral', 'alg': rep % 2, 'real': True, 'rep': rep}
        yield {'kind': 'peak', 'fn': rep % 3, 'rep': rep}
    for rep in range(4 if tier == 'quick' else 40):
        yield {'kind': 'temperature', 'rep': rep}


def check(case):
    from dynaphopy.parameters import Parameters
    from dynaphopy.power_spectrum import power_spectrum_functions as F
    rng = mix(case)
    p = Parameters()
    p.silent = True
    if case['kind'] == 'factor':
        from dpv.concrete import C02, C03, C05
        n = int(rng.integers(60, 120)); dt = float(rng.uniform(.002, .02)); cols = int(rng.integers(1, 4))
        v = rng.normal(size=(n, cols)) + 1j * rng.normal(size=(n, cols))
        f = np.linspace(0, .4 / dt, int(rng.integers(12, 40)))
        p.frequency_range = f
        p.number_of_coefficients_mem = 7
        p.correlation_function_step = int(rng.integers(1, 5))
        p.integration_method = int(rng.integers(2))
        r = np.array(call(F[case['alg']][0], v, O.T(dt), p))
        for c in range(cols):
            if case['alg'] == 0:
                ref = C03.oracle(f, v[:, c], dt, p.correlation_function_step, p.integration_method)
            elif case['alg'] == 1:
                ref = C02.spectrum(f, v[:, c], dt, 7)[0]
            elif case['alg'] in (2, 3):
                ref = C05.oracle(f, v[:, c], dt)
            else:
                return
            close(r[:, c], ref * EV, rtol=2e-6, what='values of algorithm %d in eV ps' % case['alg'])
        return
    if case['kind'] == 'integral':
        n = int(rng.integers(300, 500)); dt = float(rng.uniform(.002, .02)); scale = rng.uniform(.1, 30)
        v = rng.normal(size=n) * scale
        for k in range(int(rng.integers(0, 3))):
            v = v + scale * rng.uniform(.2, 1) * np.cos(2 * np.pi * rng.uniform(.05, .45) * np.arange(n) + rng.uniform(0, 6))
        K = 3000 if case["alg"] else 600
        f = (np.arange(K) + .5) / K / (2 * dt)
        p.frequency_range = f
        p.number_of_coefficients_mem = int(rng.integers(5, 25))
        p.correlation_function_step = 1
        p.integration_method = 0
        r = np.array(call(F[case['alg']][0], v[:, None] + 0j, O.T(dt), p))[:, 0]
        close(r.sum() * (f[1] - f[0]), .5 * np.mean(v ** 2) * EV, rtol=.03, what='integral of the spectrum (algorithm %d) against the mean kinetic energy' % case['alg'])
        return
    if case['kind'] == 'temperature':
        from dynaphopy import Quasiparticle
        st, data = lib.structure(rng, int(rng.integers(1, 4)), 'triclinic')
        sup = [3, 3, 2]
        n = len(data['masses']) * 18
        T = float(rng.uniform(1, 1500))
        m = data['masses'][lib.super_index(data, sup)]
        steps = 120000 // n
        vel = rng.normal(size=(steps, n, 3)) * np.sqrt(KB * T / m)[None, :, None]
        dyn, d = lib.dynamics(st, data, sup, rng, steps=steps, velocity=vel)
        o = call(Quasiparticle, dyn)
        t = float(call(o.get_temperature))
        close(t, T, rtol=.01, what='temperature of velocities drawn at %.2f K' % T)
        close(float(call(o.get_temperature)), t, what='temperature, second request')
        from dynaphopy.analysis.energy import boltzmann_distribution
        close(float(call(boltzmann_distribution, dyn, o.parameters)), T, rtol=.01, what='temperature of velocities drawn at %.2f K' % T)
        call(o.set_temperature, 77.5)
        close(float(call(o.get_temperature)), 77.5, what='temperature that was set')
        return
    from dynaphopy.analysis import fitting
    fn = case['fn']
    x = np.linspace(.01, 30, 1500)
    f0, w, T = rng.uniform(5, 20), rng.uniform(.3, 1), float(rng.uniform(100, 2500))
    energy = H * f0 * (1 / (np.exp(H * f0 / (KBEV * T)) - 1) + .5)      # of the quantum oscillator
    y = energy / 2 * (w / 2) / np.pi / ((x - f0) ** 2 + (w / 2) ** 2)
    if fn == 2:
        a = energy / np.pi * w * x ** 2 / ((f0 ** 2 - x ** 2) ** 2 + x ** 2 * w ** 2)
        y = a
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        out = fitting.phonon_fitting_analysis(y[:, None], x, harmonic_frequencies=np.array([f0]), fitting_function_type=fn,
                                              show_plots=False, use_degeneracy=False)
    text = buf.getvalue()
    num = lambda key: [float(z) for z in re.findall(r'%s\s+(\S+)' % key, text)]
    occ, temp, area = num('Occupation number'), num('Fit temperature'), num(r'<\|dQ/dt\|\^2>')
    pos = [float(z) for z in out['positions']]
    if pos[0] == 0:
        return
    e = float(out['dt_Q2'][0])
    from dynaphopy.analysis.fitting import fitting_functions
    g = call(fitting_functions.fitting_functions[fn], x, y, guess_position=f0, guess_height=y.max())
    close(e, 2 * float(call(g.get_fitting)['area']), rtol=1e-3, what='energy of the peak against twice its area')
    if area:
        close(area[0], e, rtol=1e-4, atol=2e-6, what='printed energy')
    n = e / (H * pos[0]) - .5
    if not occ and not temp:
        raise lib.Skip('occupation and temperature are not printed')
    if occ:
        close(occ[0], n, rtol=1e-4, atol=2e-6, what='printed occupation number')
    if temp and n > .001:
        close(temp[0], H * pos[0] / (KBEV * np.log(1 / n + 1)), rtol=1e-4, atol=1e-3, what='printed temperature')
        if fn == 0:
            close(temp[0], T, rtol=.02, what='printed temperature of a quantum oscillator at %.1f K' % T)
