"""Contracts of C17: degenerate modes share the average spectrum of their group."""
import itertools
from contracts.world import *

LEVEL = 'exploration'
TECHNIQUE = 'contracts on the real Python source, symbolic execution and z3 for all frequencies, cut-offs and spectra of up to five modes (bounded number of modes); bounded replay on the real code'
NOTE = 'degenerate_sets and average_phonon decided for every ascending list of up to five symbolic frequencies, every cut-off and every grouping of up to four modes; average_phonon also for up to four groups of any number of modes each (element-wise loop invariant), for any number of samples: degenerate_sets is bounded in the number of modes'
FA = 'dynaphopy.analysis.fitting.'
G = size('G')


def w(i):
    return T.app('w', [P(i)])


def partitions(items):
    if not items:
        yield []
        return
    first, rest = items[0], items[1:]
    for k in range(len(rest) + 1):
        for others in itertools.combinations(rest, k):
            left = [x for x in rest if x not in others]
            for p in partitions(left):
                yield [[first] + list(others)] + p


def numbers(I, groups):
    out = []
    for g in I.items(groups):
        ks = [I.num(x).const() for x in I.items(g)]
        if any(k is None for k in ks):
            raise Undecided('symbolic member of a group')
        out.append([int(k) for k in ks])
    return out


def obligations(E):
    cut = T.var('cut', nn=True)
    for n in range(1, 6):
        for given in (False, True):
            def setup(I):
                World(I)
                I.w.freqs = I.mk(Arr((n,), w(D(0))))
                I.w.cut = cut if given else P(T.F('0.0001'))
                return [I.w.freqs], {'cutoff': cut} if given else {}

            def check(ob, I, o):
                gs = numbers(I, o.value)
                ob('every mode is in exactly one group', P(1 if sorted(sum(gs, [])) == list(range(n)) else 0), P(1))
                for k in range(n - 1):
                    together = any(k in g and k + 1 in g for g in gs)
                    ob('modes %d and %d are together exactly when they differ by less than the cut-off' % (k, k + 1),
                       T.lt(w(k + 1) - w(k), I.w.cut), P(1 if together else 0))
                for g in gs:
                    ob('a group is a run of neighbours: %s' % g, P(1 if sorted(g) == list(range(min(g), max(g) + 1)) else 0), P(1))
            E.function('degenerate_sets of %d modes%s' % (n, ', any cut-off' if given else ''), FA + 'degenerate_sets', setup, check,
                       facts=SIZES + [w(k + 1) - w(k) for k in range(n - 1)] + ([cut] if given else []))

    # ---- average of the group
    for n in range(1, 5):
        for ps in partitions(list(range(n))):
            for index in range(n):
                mine = [g for g in ps if index in g][0]

                def setup(I):
                    World(I)
                    I.w.s = I.mk(Arr((G, n), T.app('s', [D(0), D(1)])))
                    groups = I.new_list([I.new_list([P(k) for k in g]) for g in ps])
                    return [P(index), I.w.s, groups], {}

                def check(ob, I, o):
                    e = T.ZERO
                    for k in mine:
                        e = e + T.app('s', [D(0), P(k)])
                    ob('average of the spectra of the group of the mode', o.value, Arr((G,), e / len(mine)))
                E.function('average_phonon of mode %d in %s' % (index, ps), FA + 'average_phonon', setup, check, facts=SIZES + [G - 1])

    # ---- the same for groups of neighbours of any size (degenerate_sets makes such groups), up to four of them
    for n in range(1, 5):
        for mine in range(n):
            sizes = [size('g%d' % k) for k in range(n)]
            starts = [sum(sizes[:k], P(0)) for k in range(n)]
            index = starts[mine] + size('own')

            def setup(I):
                World(I)
                I.w.s = I.mk(Arr((G, sum(sizes, P(0))), T.app('s', [D(0), D(1)])))
                groups = I.new_list([seq(I, sizes[k], lambda q, k=k: starts[k] + q) for k in range(n)])
                return [index, I.w.s, groups], {}

            def check(ob, I, o):
                q = T.fresh('q')
                ob('average of the spectra of the group of the mode', o.value, Arr((G,), T.sum_range(q, 0, sizes[mine], T.app('s', [D(0), starts[mine] + q])) / sizes[mine]))
            E.function('average_phonon of a mode of group %d of %d, groups of any size' % (mine, n), FA + 'average_phonon', setup, check,
                       facts=SIZES + [G - 1, size('own'), sizes[mine] - 1 - size('own')] + [x - 1 for x in sizes])

    # ---- lemma: the sum over the modes of a group is preserved
    for k in range(1, 6):
        s = [T.app('s', [T.var('t', 'i', nn=True), P(i)]) for i in range(k)]
        total = sum(s, T.ZERO)
        E.equal('lemma: %d equal averages add up to the sum of the spectra' % k, total / k * k, total, function='lemma')
