"""A Quasiparticle object in an arbitrary state of settings, over an arbitrary crystal and trajectory."""
from contracts.world import *
from contracts.ckernels import NF, FREQ
from dpv.deductive import npfun

PARAMS = 'dynaphopy.parameters.Parameters'
NB = size('NB')         # modes
QDIM = Dm


def new_parameters(I, **fields):
    """Made by the real constructor (a singleton in the program: one object here)."""
    c = dict(I.contracts)
    I.contracts = {k: v for k, v in c.items() if k != PARAMS}
    try:
        p = I.construct(PARAMS, I.class_info(PARAMS), [], {})
    finally:
        I.contracts = c
    for k, v in fields.items():
        if '_' + k not in I.heap[p.cid]:
            raise Undecided('no setting ' + k)
        I.set_field(p, '_' + k, v)
    return p


def contracts(**extra):
    c = structure_contracts()
    c.update({PARAMS: lambda I, *a, **k: I.w.par,
              DYN + '.crop_trajectory': lambda I, self, n: None,
              DYN + '.velocity': prop(lambda I: I.w.v)})
    c.update(extra)
    return c


class QWorld(World):
    def __init__(self, I, dim=Dm, state=None, **settings):
        World.__init__(self, I, dim)
        self.v = I.mk(arr('v', (N, M, dim), 'c'))
        self.q = I.mk(arr('q', (dim,)))
        self.freqs = I.mk(FREQ)
        s = {'reduced_q_vector': self.q, 'frequency_range': self.freqs, 'mem_scan_range': I.mk(arr('scan', (size('NSC'),), 'i'))}
        s.update(settings)
        self.par = new_parameters(I, **s)
        self.dyn = I.new_obj(DYN, {'$open': True, '_structure': self.structure, 'structure': self.structure})
        saved = dict(I.contracts)
        ci = I.class_info(QP)
        self.qp = I.construct(QP, ci, [self.dyn], {})
        for k, x in (state or {}).items():
            if k not in I.heap[self.qp.cid]:
                raise Undecided('Quasiparticle has no field ' + k)
            I.set_field(self.qp, k, x)


FUNCTIONS_ = {0: 'get_fourier_direct_power_spectra', 1: 'get_mem_power_spectra', 2: 'get_fft_numpy_spectra', 3: 'get_fft_fftw_power_spectra'}


def S(freq, samples, n):
    """Spectrum of one signal at one frequency; samples: a term of _l0."""
    return T.fun('S', freq, n, samples)


def spectra(I, vq, trajectory, parameters):
    """Contract of the power spectrum functions (C02, C03, C05): every column on its own."""
    a = I.arr(vq)
    if a.ndim != 2:
        raise PyExc('IndexError')
    if not (isinstance(trajectory, Obj) and trajectory.cid == I.w.dyn.cid and isinstance(parameters, Obj) and parameters.cid == I.w.par.cid):
        raise Undecided('spectrum of another trajectory or with other settings')
    f = I.arr(I.call(I.getattr(parameters, 'frequency_range'), [], {}) if False else I.getattr(parameters, 'frequency_range'))
    return I.mk(Arr((f.shape[0], a.shape[1]), S(f.at(D(0)), a.at(T.var('_l0', 'i', nn=True), D(1)), a.shape[0]), 'f'))


def spectra_contracts(alg):
    """Only the selected function may be used."""
    return {'dynaphopy.power_spectrum.' + FUNCTIONS_[alg]: spectra}
