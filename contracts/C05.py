"""Contracts of C05: FFT spectra average equal segments covering the whole trajectory."""
from contracts.world import *
from contracts.ckernels import *
from dpv.deductive import npfun

LEVEL = 'proof'
TECHNIQUE = 'contracts on the real Python source, symbolic execution with inductive loop summaries, term normal form and z3; bounded replay on the real code'
NOTE = 'segment division, periodogram and both FFT functions for every length, resolution and number of signals; numpy and pyfftw transforms by contract'
RES, L, K = T.var('resolution', nn=True), size('L'), size('k')
DTP = T.var('dt', nn=True)
MOD = 'dynaphopy.power_spectrum.'


def start(i, l, k):
    return T.floordiv(i * (NS - l), k)


def obligations(E):
    whole = T.rnd(1 / (DTP * RES))
    k0 = T.floordiv(NS - 1, whole)

    # ---------------------------------------------------------------- division of the data
    def check_d(ob, I, o):
        k = T.ite(T.ge(k0, 1), k0, 1)
        l = T.ite(T.ge(k0, 1), whole, NS)
        ob('k+1 segments of one length', o.value, Arr((k + 1, 2), start(D(0), l, k) + T.bracket_eq(D(1) - 1) * l))
    E.function('segments', MOD + '_division_of_data', lambda I: ([RES, NS, DTP], {}), check_d, facts=[NS - 1, whole - 1])

    i = size('i')
    with T.facts(NS - 1, L - 1, K - 1, K * L - (NS - L), NS - 1 - K * L, i, K - i):
        E.entailed('lemma: the first segment starts at the first sample', T.eq(start(P(0), L, K), P(0)), function='lemma')
        E.entailed('lemma: the last segment ends at the last sample', T.eq(start(K, L, K) + L, NS), function='lemma')
        E.entailed('lemma: segments start inside the signal', T.ge(start(i, L, K), 0), function='lemma')
        E.entailed('lemma: segments end inside the signal', T.ge(NS, start(i, L, K) + L), function='lemma')
        E.entailed('lemma: segments are in order', T.ge(start(i + 1, L, K), start(i, L, K)), function='lemma')
        E.entailed('lemma: no sample is left between two segments', T.ge(start(i, L, K) + L, start(i + 1, L, K)), function='lemma')
    with T.facts(NS - 1, L - 1, K - 1):
        # k = floor((N-1)/L): what the lemmas above assume of k
        k = T.floordiv(NS - 1, L)
        E.entailed('lemma: k segments do not cover more than N-1 samples', T.ge(NS - 1, k * L), function='lemma')
        E.entailed('lemma: k+1 segments cover N samples', T.ge(k * L, NS - L), function='lemma')

    # ---------------------------------------------------------------- one signal
    def division(I, resolution, n, dt):
        need(I, 'the resolution', resolution, T.app('freq', [P(1)]) - T.app('freq', [P(0)]))
        need(I, 'the number of data', n, NS)
        need(I, 'the time step', dt, DTP)
        q = T.fresh('q')
        f = T.app('start', [q], 'i', nn=True)
        I.seq_facts[T.var_name(q)] = [NS - L - f]
        return ListRef(I.new(Seq((('seq', K + 1, T.var_name(q), Seq((('items', (f, f + L)),))),))))

    def periodogram(I, v):
        s = T.fresh('s')
        f = T.app('start', [s], 'i', nn=True)
        seg = I.mk(Arr((L,), T.subst(v, {'@0': f + D(0)}), 'c'))
        c = npfun._correlate(I, seg, seg, mode='same')
        c = I.mk(Arr((L,), I.content(c).expr / L, 'c'))
        one = T.absolute(I.content(npfun._fft(I, c)).expr) * DTP
        mean = I.mk(Arr((L,), T.sum_range(s, 0, K + 1, one) / (K + 1)))
        fr = npfun._fftfreq(I, L, DTP)
        order = npfun._argsort(I, fr)
        return I.arr(npfun._interp(I, I.mk(FREQ), I.subscript(fr, (order,)), I.subscript(mean, (order,))))

    for name in ('numpy', 'fftw'):
        def setup_p(I):
            return [I.mk(FREQ), I.mk(V), DTP], {}

        def check_p(ob, I, o):
            ob('average of the periodograms of the segments', o.value, periodogram(I, velocity(D(0))))
        E.function('one signal, ' + name, MOD + '_%s_power' % name, setup_p, check_p, contracts={MOD + '_division_of_data': division},
                   facts=CFACTS + [L - 1, NS - L, K - 1, NF - 2])

        def power(I, freq, v, dt):
            need(I, 'the time step', dt, DT)
            if I.arr(freq).expr != T.app('freq', [D(0)]):
                raise Undecided('other frequencies')
            return I.mk(Arr((NF,), T.app('S', [D(0), column(I, v)])))
        columns(E, 'every signal, ' + name, MOD + 'get_fft_%s_spectra' % name if name == 'numpy' else MOD + 'get_fft_fftw_power_spectra',
                {MOD + '_%s_power' % name: power}, {'zero_padding': P(0)}, facts=[NF - 2])
