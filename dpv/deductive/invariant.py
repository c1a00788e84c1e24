"""Loops with a supplied invariant.  A contract gives templates: what a carried location may hold at the start of
iteration number i.  Which location has which template is found by the verifier (a template is kept for a location when it
holds before the first iteration and the body preserves it), so names and order of statements do not matter."""
from dpv.deductive import terms as T
from dpv.deductive.terms import P, Undecided
from dpv.deductive.values import *
from dpv.deductive.sym import Return, Break, Continue


class Template:
    """name; at(i): the value at the start of iteration i (a term, or (first, last, function of the index)); after(i): the
    same at the start of iteration i + 1, in terms of the values at i."""

    def __init__(self, name, at, after, initial):
        self.name, self.at, self.after, self.initial = name, at, after, initial


def same(I, a, b, facts=(), last=True):
    saved = list(T.FACTS)
    T.FACTS.extend(facts)
    try:
        return T.equal(a, b, path=I.path, last=last)[0] == 'equal'
    except RecursionError:
        return False
    finally:
        T.FACTS[:] = saved


def holds(I, v, value, facts=()):
    """The location's content v agrees with the template value."""
    if isinstance(value, tuple):
        if not isinstance(v, Arr) or v.ndim != 1:
            return False
        lo, hi, f = value
        j = T.fresh('j')
        return same(I, v.at(j), f(j), tuple(facts) + (j - lo, hi - j))
    return isinstance(v, Poly) and same(I, v, value, facts)


def place(I, value, old):
    """Content of a location with a template value (outside its range: anything)."""
    if isinstance(value, tuple):
        lo, hi, f = value
        h = 'H#%d' % next(T._fresh)
        j = D(0)
        inside = T.bracket_ge(j - lo) * T.bracket_ge(hi - j)
        return Arr(old.shape, inside * f(j) + (T.ONE - inside) * T.app(h, [j], {'i': 'i', 'c': 'c'}.get(old.dtype, 'r')), old.dtype)
    return value


def anything(I, old):
    if isinstance(old, Arr):
        return Arr(old.shape, T.app('H#%d' % next(T._fresh), [D(k) for k in range(old.ndim)], {'i': 'i', 'c': 'c'}.get(old.dtype, 'r')), old.dtype)
    if isinstance(old, Poly):
        return T.fresh('h', 'i' if old.is_int() else 'r' if old.is_real() else 'c')
    if isinstance(old, Seq):
        raise Undecided('a list in a loop with a supplied invariant')
    return UNDEF


def supplied(I, n, templates, seen=None):
    """The loop handler: templates(location content) -> list of Template."""
    def inv(bind, run):
        base = I.save()
        if not T.entails(list(T.FACTS), P(n)):
            raise Undecided('a loop with a supplied invariant needs a known sign of its length')
        i = T.fresh('i')
        carried = {}
        mark = len(getattr(I, 'vcs', ()))
        for attempt in range(60):
            I.restore(base)
            if hasattr(I, 'vcs'):
                del I.vcs[mark:]
            init = {l: I._get(l, base[0], base[1]) for l in carried}
            T.FACTS.extend([i, P(n) - 1 - i])
            for l, c in carried.items():
                I._put(l, place(I, c[0].at(i), init[l]) if c else anything(I, init[l]))
            start = I.save()

            def body():
                bind(i)
                try:
                    run()
                except Continue:
                    pass
            outs = I.explore(body)
            new = []
            for o in outs:
                if o.kind == 'next':
                    for l in I._locs((start[0], start[1]), o.state[0], o.state[1]):
                        if l not in carried and l not in new:
                            new.append(l)
                elif o.kind not in ('return', 'break'):
                    raise Undecided('a loop is left by ' + o.kind)
            if new:
                for l in new:
                    v0 = I._get(l, base[0], base[1])
                    if l[0] == 'field':
                        raise Undecided('a loop with a supplied invariant writes a table')
                    I.restore(base)
                    carried[l] = [t for t in templates(v0) if t.initial(I, v0)]
                continue
            dropped = False
            for l, c in carried.items():
                if not c:
                    continue
                for o in outs:
                    if o.kind != 'next':
                        continue
                    I.restore(o.state)
                    v = I._get(l, o.state[0], o.state[1])
                    ok = c[0].holds(I, v, i) if hasattr(c[0], 'holds') else holds(I, v, c[0].after(i), c[0].guard(i) if hasattr(c[0], 'guard') else ())
                    if not ok:
                        c.pop(0)
                        dropped = True
                        break
            if not dropped:
                break
        else:
            raise Undecided('no stable invariant')
        if seen is not None:
            seen.append({'templates': sorted(c[0].name for c in carried.values() if c), 'exits': [o for o in outs if o.kind != 'next'], 'index': i,
                         'next': [o for o in outs if o.kind == 'next']})
        exits = [o for o in outs if o.kind != 'next']
        I.restore(base)
        for k, o in enumerate(exits):
            if I.decide(T.bracket_ge(T.fresh('stop'))):
                I.restore(o.state)
                I.ghost['left'] = i
                if o.kind == 'return':
                    raise Return(o.value)
                return
        for l, c in carried.items():
            strong = c and not hasattr(c[0], 'guard')
            I._put(l, place(I, c[0].at(P(n)), I._get(l, base[0], base[1])) if strong else anything(I, I._get(l, base[0], base[1])))
    return inv
