"""Burg's recursion: the specification, the invariant of the loop over orders, and the contract callers use."""
from contracts.ckernels import *
from dpv.deductive.invariant import Template, supplied, holds
from dpv.deductive.values import *


# forward and backward errors F(k, j), B(k, j) (1 <= j <= N - k), coefficients A(k, i) (1 <= i <= k) and error power
# P(k) of order k; the recursion that defines them is written once here
def F(k, j):
    return T.app('F', [P(k), P(j)])


def B(k, j):
    return T.app('B', [P(k), P(j)])


def A(k, i):
    return T.app('A', [P(k), P(i)])


def PW(k):
    return T.app('PW', [P(k)])


def num(k):
    q = T.fresh('q')
    return T.sum_range(q, 0, NS - k, F(k, q + 1) * B(k, q + 1))


def den(k):
    q = T.fresh('q')
    return T.sum_range(q, 0, NS - k, F(k, q + 1) ** 2 + B(k, q + 1) ** 2)


def refl(k):
    return 2 * num(k) / den(k)


def signal(j):
    return T.app('x', [P(j)])


def F_next(k, j):
    return F(k, j) - refl(k) * B(k, j)


def B_next(k, j):
    return B(k, j + 1) - refl(k) * F(k, j + 1)


def A_next(k, i):
    """A(k, i) by A(k - 1, .)"""
    return T.bracket_eq(P(i) - k) * refl(k) + (T.ONE - T.bracket_eq(P(i) - k)) * (A(k - 1, i) - refl(k) * A(k - 1, k - i))


def PW_next(k):
    """P(k) by P(k - 1)"""
    return PW(k - 1) * (1 - refl(k) ** 2)


class Row(Template):
    """f(k, j) on first <= j <= last(k), kept at index j - shift, at the start of the order k = i + 1."""

    def __init__(self, name, last, f, after, first, shift, weak):
        self.name = '%s at index j - %d' % (name, shift)
        self.shift = shift
        self.at = lambda i: (P(1) - shift, last(i + 1) - shift, lambda j: f(i + 1, j + shift))
        self.after = lambda i: (P(1) - shift, last(i + 2) - shift, lambda j: after(i + 1, j + shift))
        self.initial = lambda I, v: holds(I, v, (P(1) - shift, last(P(1)) - shift, lambda j: first(j + shift)))
        if weak:
            # the orders after the last one do not need it
            self.name += ', but not after the last order'
            self.guard = lambda i: (MC - 2 - i,)


def templates(v):
    if isinstance(v, Poly):
        return [Template('the error power', lambda i: PW(i), lambda i: PW_next(i + 1), lambda I, v: holds(I, v, power()))]
    if not isinstance(v, Arr) or v.ndim != 1:
        return []
    out = []
    for shift in (0, 1):
        for row in (('forward errors', lambda k: NS - k, F, F_next, lambda j: signal(j - 1)),
                    ('backward errors', lambda k: NS - k, B, B_next, lambda j: signal(j)),
                    ('coefficients', lambda k: k - 1, lambda k, j: A(k - 1, j), lambda k, j: A_next(k, j), lambda j: T.ZERO)):
            out += [Row(*row, shift, False), Row(*row, shift, True)]
    return out


def power():
    j = T.fresh('j')
    return T.sum_range(j, 0, NS, signal(j) ** 2) / NS


def orders(seen, templates=templates):
    """Candidate for the loop over orders: MC iterations, with loops inside."""
    def candidate(I, node, n, lo, step, key):
        if n != MC or not I.has(node, ('ForStmt', 'WhileStmt')) or not I.has([c for c in node['inner'] if c][-1], ('ForStmt', 'WhileStmt')):
            return None
        return supplied(I, n, templates, seen)
    return candidate


def lemmas(E):
    """What the recursion means."""
    k, j = T.var('k', 'i'), T.var('j', 'i')
    saved = list(T.FACTS)
    T.FACTS.extend([k - 1, j - 1, NS - 1 - k - j, NS])
    try:
        # what the coefficients c(1..n) predict of a sample from the n following and from the n preceding samples
        def following(c, n, j):
            i = T.fresh('i')
            return signal(j - 1) - T.sum_range(i, 1, n + 1, c(i) * signal(j - 1 + i))

        def preceding(c, n, j):
            i = T.fresh('i')
            return signal(j + n) - T.sum_range(i, 1, n + 1, c(i) * signal(j + n - i))
        a = T.var('a')
        old = lambda i: A(k - 1, i)
        # the order update of the coefficients below k, for any a in the place of the reflection coefficient; the coefficient k is a
        new = lambda i: old(i) - a * old(k - i)
        E.equal('lemma: the update of the forward errors keeps them the prediction errors', following(new, k - 1, j) - a * signal(j - 1 + k),
                following(old, k - 1, j) - a * preceding(old, k - 1, j), function='lemma')
        E.equal('lemma: the update of the backward errors keeps them the prediction errors', preceding(new, k - 1, j + 1) - a * signal(j),
                preceding(old, k - 1, j + 1) - a * following(old, k - 1, j + 1), function='lemma')
        # the reflection coefficient minimises the sum of the squares of both errors of the next order
        q = T.fresh('q')
        total = lambda a: T.sum_range(q, 0, NS - k, (F(k, q + 1) - a * B(k, q + 1)) ** 2 + (B(k, q + 1) - a * F(k, q + 1)) ** 2)
        E.equal('lemma: the reflection coefficient minimises the errors', total(a) - total(refl(k)), den(k) * (a - refl(k)) ** 2, function='lemma')
    finally:
        T.FACTS[:] = saved
