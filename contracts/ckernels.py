"""Shared by the contracts of the C kernels."""
from contracts.world import *
from dpv.deductive.engine import CQual
from dpv.deductive import cfront

NS = size('NS')            # samples
NF = size('NF')            # frequencies
INC = size('inc')          # correlation step
MC = size('MC')            # coefficients
DT = T.var('dt')
V = arr('v', (NS,), 'c')
FREQ = arr('freq', (NF,))
CFACTS = [NS, NF, INC - 1, MC]
C_TRUST = ['CPython and NumPy C functions do what the contracts in dpv/deductive/cfront.py say; malloc and the conversion of the arguments succeed',
           'int, long and npy_intp are mathematical integers, double is exact; clang gives the syntax tree of the source, in which the clauses of OpenMP pragmas are read from the text']


def velocity(i):
    return T.app('v', [P(i)], 'c')


def result(I, o, rank):
    """Content of the returned array."""
    if not isinstance(o.value, Obj):
        return o.value
    d = I.heap[o.value.cid]
    a = I.heap[d['data'].cid]
    sh = d['shape']
    if len(sh) != rank:
        return a
    if rank == 1:
        return Arr(sh, a.expr, a.dtype)
    return Arr(sh, a.at(D(0) * sh[1] + D(1)), a.dtype)


def block(I, a, sort, t):
    cid = I.new(Arr(a.shape, a.expr, {'r': 'f', 'c': 'c', 'i': 'i'}[sort]))
    I.elt[cid] = t
    I.inputs['block%d' % cid] = (Obj('PyArr', I.new({'refs': P(0)})), I.heap[cid], cid)
    return Ptr(cid, P(0))


cfront.CInterp.block = block


def column(I, v):
    """Number of the column of vq that v is."""
    a = I.arr(v)
    if a.ndim == 1 and len(a.expr.m) == 1 and same_dim(a.shape[0], NS):
        (mono, c), = a.expr.m.items()
        if c == 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].kind == 'app':
            n, args, cj = mono[0][0].data
            if n == 'vq' and not cj and args[0] == D(0) and '@0' not in args[1].free:
                return args[1]
    raise Undecided('the kernel is applied to something else than a column of the set of signals')


def need(I, what, got, want):
    if not isinstance(got, Poly) or T.equal(got, want)[0] != 'equal':
        raise Undecided('%s is %r' % (what, got))


def columns(E, name, qual, kernels, fields, facts=(), check=None, outcome='next'):
    """A power spectrum function of the package: every column of the set of signals goes to the kernel on its own."""
    def setup(I):
        I.vq = I.mk(arr('vq', (NS, MC_), 'c'))
        I.freqs = I.mk(FREQ)
        par = I.new_obj('parameters', dict({'silent': True, 'frequency_range': I.freqs}, **{k: v(I) if callable(v) else v for k, v in fields.items()}))
        return [I.vq, I.new_obj('trajectory', {}), par], {}

    def check_(ob, I, o):
        ob('every column on its own', o.value, Arr((NF, MC_), T.app('S', [D(0), D(1)]) * UNIT))
    c = {'trajectory.get_time_step_average': lambda I, self: DT}
    c.update(kernels)
    E.function(name, qual, setup, check or check_, contracts=c, facts=CFACTS + [MC_] + list(facts), outcome=outcome)


MC_ = size('modes')
UNIT = T.P(T.F('0.000103642697'))
