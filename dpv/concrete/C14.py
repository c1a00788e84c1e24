"""Histories of settings and requests against a new object with the final settings."""
import numpy as np
from dpv.concrete import lib, oracles as O
from dpv.concrete.lib import fail, close, equal, call, mix

FUNCTIONS = ['Quasiparticle setters and getters']
SETS = ['q', 'alg', 'limits', 'resolution', 'mem', 'atom', 'crop', 'fit', 'nac', 'bands', 'qha']
GETS = ['vc', 'vq', 'ev', 'freq', 'full', 'full_c', 'partials', 'wave', 'phonon', 'qcart', 'com', 'fc', 'adp', 'bands']


def cases(rng, tier):
    # directed: every setter between two requests of every getter
    light = [g for g in GETS if g not in ('com', 'fc')]
    k = 0
    for s in SETS:
        for g in light:
            yield {'kind': 'pair', 'set': s, 'get': g, 'rep': k, 'sym': bool(k % 2)}
            k += 1
    for s in SETS:
        for g in ('com', 'fc'):
            yield {'kind': 'pair', 'set': s, 'get': g, 'rep': k, 'sym': bool(k % 2)}
            k += 1
    for rep in range(60 if tier == 'quick' else 1200):
        yield {'kind': 'history', 'rep': rep, 'sym': bool(rep % 3 == 0), 'heavy': rep % 5 == 4, 'length': int(rng.integers(3, 14))}


class World:
    def __init__(self, case, rng):
        self.rng = rng
        self.sup = [[1, 2, 1], [2, 1, 1], [1, 1, 2]][case['rep'] % 3]
        nb = 2
        self.seed = int(rng.integers(1 << 30))
        r = np.random.default_rng(self.seed)
        self.make = lambda: lib.forced_structure(np.random.default_rng(self.seed), ['P', 'C'][case['rep'] % 2], nb,
                                                 'ortho', (1, 2, 1), kinds=[0, 1])
        st, self.data = self.make()
        self.nb = nb
        pos = lib.super_positions(self.data, self.sup)
        self.steps = 40
        self.traj = pos + r.uniform(-.1, .1, (self.steps,) + pos.shape)
        self.vel = r.normal(size=self.traj.shape)
        self.sym = case['sym']
        self.memmap = False
        self.given = bool(case['rep'] % 2)
        self.qs = [[0, 0, 0], [0, .5, 0], [.5, 0, 0], [.25, .1, 0], [0, 0, .5], [0.5, 0.5, 0]]
        self.final = dict(q=None, alg=1, freq=np.linspace(1, 25, 7), res=4.0, mem=5, atom=-1, crop=None, fit=0, nac=False, bands=None, qha=False)

    def new(self, settings):
        from dynaphopy import Quasiparticle
        from dynaphopy.dynamics import Dynamics
        from dynaphopy.parameters import Parameters
        lib.reset_parameters()
        st, _ = self.make()
        kw = dict(velocity=self.vel + 0j) if self.given else {}
        dyn = Dynamics(structure=st, trajectory=self.traj + 0j, time=np.arange(self.steps) * .01,
                       supercell=np.diag(self.sup) @ self.data['cell'], memmap=False, **kw)
        p = Parameters()
        p.silent = bool(self.seed % 2)
        p.use_symmetry = self.sym
        p.correlation_function_step = 4
        p.mesh_phonopy = (3, 3, 3)
        p.number_of_coefficients_mem = settings['mem']
        p.frequency_range = np.array(settings['freq'])
        p.spectrum_resolution = settings['res']
        p.power_spectra_algorithm = settings['alg']
        p.fitting_function = settings['fit']
        p.use_NAC = settings['nac']
        p.project_on_atom = settings['atom']
        p.use_MD_cell_commensurate = False
        if settings['q'] is not None:
            p.reduced_q_vector = np.array(settings['q'])
        o = call(Quasiparticle, dyn, last_steps=settings['crop'])
        if settings['bands'] is not None:
            p.band_ranges = {'ranges': settings['bands']}
        if settings['qha']:
            self.qha(o)
        return o

    def qha(self, o):
        from dynaphopy.interface.phonopy_link import ForceConstants, save_force_constants_to_file
        save_force_constants_to_file(ForceConstants(self.data['fc'] * 1.21), 'FC_QHA')
        call(o.set_qha_force_constants, 'FC_QHA')

    def set(self, o, s):
        r, f = self.rng, self.final
        if s == 'q':
            f['q'] = list(self.qs[r.integers(len(self.qs))]); call(o.set_reduced_q_vector, np.array(f['q'], float))
        elif s == 'alg':
            f['alg'] = int(r.integers(4)); call(o.select_power_spectra_algorithm, f['alg'])
        elif s == 'limits':
            lo = float(r.integers(0, 4)); call(o.set_frequency_limits, [lo, lo + float(r.integers(8, 25))])
            f['freq'] = np.array(call(o.get_frequency_range)).copy()
        elif s == 'resolution':
            f['res'] = float(r.choice([2.0, 3.0, 2.5])); call(o.set_spectra_resolution, f['res'])
            f['freq'] = np.array(call(o.get_frequency_range)).copy()
        elif s == 'mem':
            f['mem'] = int(r.integers(2, 9)); call(o.set_number_of_mem_coefficients, f['mem'])
        elif s == 'atom':
            f['atom'] = int(r.integers(self.nb)); call(o.set_projection_onto_atom_type, f['atom'])
        elif s == 'crop':
            n = int(r.integers(18, 41)); call(o.crop_trajectory, n)
            f['crop'] = n if f['crop'] is None else min(n, f['crop'])
        elif s == 'fit':
            f['fit'] = int(r.choice([0, 2])); call(o.select_fitting_function, f['fit'])
        elif s == 'nac':
            call(o.set_NAC, False)
        elif s == 'bands':
            f['bands'] = [[[0.0, 0, 0], [.5, 0, float(r.choice([0, .5]))]]]; call(o.set_band_ranges, f['bands'])
        elif s == 'qha':
            f['qha'] = True; self.qha(o)

    def get(self, o, g):
        if g == 'vc': return call(o.get_vc)
        if g == 'vq': return call(o.get_vq)
        if g == 'ev': return call(o.get_eigenvectors)
        if g == 'freq': return call(o.get_frequencies)
        if g == 'full': return call(o.get_power_spectrum_full)
        if g == 'full_c': return call(o.get_power_spectrum_full, projection_on_coordinate=1) if self.final['atom'] >= 0 else call(o.get_power_spectrum_full)
        if g == 'partials': return call(o.get_power_spectrum_partials)
        if g == 'wave': return call(o.get_power_spectrum_wave_vector)
        if g == 'phonon': return call(o.get_power_spectrum_phonon)
        if g == 'qcart': return call(o.get_q_vector)
        if g == 'adp': return call(o.get_anisotropic_displacement_parameters, print_on_screen=False)
        if g == 'bands':
            import io, contextlib, re
            if self.final['bands'] is None:
                self.final['bands'] = [[[0.0, 0, 0], [.5, 0, 0]]]
                call(o.set_band_ranges, self.final['bands'])
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                o.print_phonon_dispersion_bands()
            return np.array([float(x) for x in re.findall(r'[-+]?\d[\d.]*(?:e[-+]?\d+)?', out.getvalue().split('ands')[-1])])
        if g == 'com':
            c = call(o.get_commensurate_points_data, auto_range=False)
            return np.array([c['frequencies'], c['linewidths'], c['frequency_shifts']])
        if g == 'fc':
            call(o.get_commensurate_points_data, auto_range=False)
            return call(o.get_renormalized_force_constants).get_array()


def check(case):
    rng = mix(case)
    w = World(case, rng)
    o = w.new(w.final)
    call(o.set_reduced_q_vector, np.array([0, .5, 0])); w.final['q'] = [0, .5, 0]
    done = []
    if case['kind'] == 'pair':
        asks = [case['get']]
        if case['set'] != 'atom' and rng.random() < .5:
            w.set(o, 'atom')
        for k in range(2):
            w.get(o, case['get']); done.append('get ' + case['get'])
            w.set(o, case['set']); done.append('set %s to %s' % (case['set'], {k: str(v) for k, v in w.final.items()}.get(case['set'], w.final['freq'][[0, -1]])))
    else:
        gets = GETS if case['heavy'] else [g for g in GETS if g not in ('com', 'fc')]
        for k in range(case['length']):
            if rng.random() < .5:
                s = str(rng.choice(SETS)); w.set(o, s); done.append('set ' + s)
            else:
                g = str(rng.choice(gets)); w.get(o, g); done.append('get ' + g)
        asks = list(rng.permutation([g for g in gets if g not in ('com', 'fc')]))
        if case['heavy']:
            asks.append('com')
    got = [np.array(w.get(o, g)).copy() for g in asks]
    q_end = np.array(call(o.get_reduced_q_vector), float)
    fresh = w.new(w.final)
    ref = [np.array(w.get(fresh, g)) for g in asks]
    for g, a, b in zip(asks, got, ref):
        close(a, b, rtol=1e-7, atol=1e-12, what='%s after %s' % (g, done))
    close(q_end, np.array(w.final['q'], float), what='selected wave vector after %s' % done)
