"""Translation of terms to z3 (integers mathematical, reals exact) and the queries on it."""
import re, time
from dpv import common
import sys
if common.TOOLS_SITE not in sys.path:
    sys.path.append(common.TOOLS_SITE)
import z3
from dpv.deductive import terms as T

STATS = {'queries': 0, 'seconds': 0.0, 'unknown': 0}
RLIMIT = 3000000         # work limit of a query; not a time, so that the answer does not depend on the load of the machine


class Translation:
    """Atoms become constants (or applications); floor, round and abs get their defining facts."""
    def __init__(self):
        self.cache = {}
        self.side = []
        self.fns = {}

    def poly(self, p):
        k = p.key
        if k in self.cache:
            return self.cache[k]
        parts = []
        is_int = p.is_int()
        for mono, c in p.m.items():
            t = []
            if is_int:
                t.append(z3.IntVal(int(c)))
            else:
                t.append(z3.RealVal(str(c)))
            for a, e in mono:
                x = self.atom(a)
                if not is_int and x.sort() == z3.IntSort():
                    x = z3.ToReal(x)
                if e.denominator == 1 and 0 < e <= 6:
                    t.extend([x] * int(e))
                elif e.denominator == 1 and e < 0 and e >= -3:
                    y = z3.Real('inv%d' % len(self.cache) + a.key[:40])
                    k2 = ('inv', a.key)
                    if k2 in self.cache:
                        y = self.cache[k2]
                    else:
                        xx = z3.ToReal(x) if x.sort() == z3.IntSort() else x
                        self.cache[k2] = y
                        self.side.append(z3.Implies(xx != 0, y * xx == 1))
                    t.extend([y] * int(-e))
                else:
                    k2 = ('rpow', a.key, e)
                    if k2 not in self.cache:
                        y = z3.Real('rp%d' % len(self.cache))
                        self.cache[k2] = y
                        if e.denominator == 2 and e > 0:
                            xx = z3.ToReal(x) if x.sort() == z3.IntSort() else x
                            self.side.append(z3.Implies(xx >= 0, z3.And(y >= 0, y * y == (xx if e == T.F(1, 2) else xx ** int(2 * e)))))
                    t.append(self.cache[k2])
            r = t[0]
            for x in t[1:]:
                r = r * x
            parts.append(r)
        if not parts:
            r = z3.IntVal(0) if is_int else z3.RealVal(0)
        elif len(parts) == 1:
            r = parts[0]
        else:
            r = z3.Sum(parts)
        self.cache[k] = r
        return r

    def real(self, p):
        x = self.poly(p)
        return z3.ToReal(x) if x.sort() == z3.IntSort() else x

    def atom(self, a):
        k = a.key
        if k in self.cache and not isinstance(self.cache[k], tuple):
            return self.cache[k]
        if a.kind == 'iv':
            op, p = a.data
            x = self.poly(p)
            b = (x >= 0) if op == 'ge' else (x == 0)
            r = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        elif a.kind == 'app' and all(x.is_int() for x in a.data[1]):
            name = ('~' if a.data[2] else '') + a.data[0]
            args = [self.poly(x) for x in a.data[1]]
            rs = z3.IntSort() if a.sort == 'i' else z3.RealSort()
            fn = self.fns.setdefault((name, len(args)), z3.Function(name + '/%d' % len(args), *([z3.IntSort()] * len(args) + [rs])))
            r = fn(*args) if args else z3.Const(name, rs)
            if a.nn:
                self.side.append(r >= 0)
        elif a.kind == 'fun' and a.data[0] == 'floor':
            r = z3.Int(k)
            x = self.real(a.data[1][0])
            self.side.append(z3.And(z3.ToReal(r) <= x, x < z3.ToReal(r) + 1))
            self._floor_div(a.data[1][0], r)
        elif a.kind == 'fun' and a.data[0] == 'round':
            r = z3.Int(k)
            x = self.real(a.data[1][0])
            self.side.append(z3.And(z3.ToReal(r) * 2 <= x * 2 + 1, x * 2 - 1 <= z3.ToReal(r) * 2))
        elif a.kind == 'fun' and a.data[0] == 'trunc':
            r = z3.Int(k)
            x = self.real(a.data[1][0])
            self.side.append(z3.If(x >= 0, z3.And(z3.ToReal(r) <= x, x < z3.ToReal(r) + 1), z3.And(x <= z3.ToReal(r), z3.ToReal(r) - 1 < x)))
        elif a.kind == 'fun' and a.data[0] == 'abs':
            x = self.poly(a.data[1][0])
            r = z3.If(x >= 0, x, -x)
        elif a.kind == 'fun' and a.data[0] in ('min', 'max') and len(a.data[1]) == 2:
            x, y = self.real(a.data[1][0]), self.real(a.data[1][1])
            r = z3.If(x <= y, x, y) if a.data[0] == 'min' else z3.If(x <= y, y, x)
            if a.sort == 'i':
                x, y = self.poly(a.data[1][0]), self.poly(a.data[1][1])
                r = z3.If(x <= y, x, y) if a.data[0] == 'min' else z3.If(x <= y, y, x)
        elif a.kind == 'pow':
            r = self.real(a.data)
        elif a.kind == 'fun' and a.data[0] == 'argsort':
            r = z3.Int(k)
            m = self.poly(a.data[1][1])
            self.side.append(z3.And(r >= 0, z3.Or(m < 1, r < m)))
        elif a.sort == 'i':
            r = z3.Int(k)
            if a.nn:
                self.side.append(r >= 0)
        else:
            r = z3.Real(k)
            if a.nn:
                self.side.append(r >= 0)
            if a is T.PI_ATOM:
                self.side.append(z3.And(r > z3.RealVal('3.14159'), r < z3.RealVal('3.1416')))
        self.cache[k] = r
        return r

    def _floor_div(self, p, r):
        """floor(n/d): n - d < r*d <= n  when d > 0, in integers."""
        dens = [a for mono in p.m for a, e in mono if e == -1]
        if len(set(dens)) == 1 and all(dict(mono).get(dens[0]) == -1 for mono in p.m):
            d = T.P(dens[0]) if dens[0].kind != 'pow' else dens[0].data
            n = p * d
            lc = 1
            for c in n.m.values():
                lc = lc * c.denominator // T.math.gcd(lc, c.denominator)
            n2, d2 = n * lc, d * lc
            if n2.is_int() and d2.is_int():
                zn, zd = self.poly(n2), self.poly(d2)
                self.side.append(z3.Implies(zd > 0, z3.And(r * zd <= zn, zn < r * zd + zd)))

    def cond(self, c):
        """z3 formula: the bracket polynomial c has the value 1."""
        if len(c.m) == 1:
            (mono, co), = c.m.items()
            if co == 1 and all(a.kind == 'iv' for a, e in mono):
                out = []
                for a, e in mono:
                    op, p = a.data
                    x = self.poly(p)
                    out.append((x >= 0) if op == 'ge' else (x == 0))
                return z3.And(*out) if len(out) != 1 else out[0]
        return self.poly(c) == 1


def _check(s):
    t = time.time()
    STATS['queries'] += 1
    s.set('timeout', 4000)                  # nonlinear arithmetic does not always keep to the resource limit
    r = s.check()
    STATS['seconds'] += time.time() - t
    if r == z3.unknown:
        STATS['unknown'] += 1
    return r


_cache = {}
_contexts = {}


class Context:
    """Solver of one set of facts, with the models it has produced (they refuse most queries without a solver call)."""

    def __init__(self, rel):
        self.tr = Translation()
        self.s = z3.Solver()
        self.s.set('rlimit', RLIMIT)
        self.rel = rel
        for f in rel:
            self.s.add(self.tr.poly(f) >= 0)
        self.sent = 0
        self.models = []
        self.flush()

    def flush(self):
        if len(self.tr.side) > self.sent:
            self.s.add(*self.tr.side[self.sent:])
            self.sent = len(self.tr.side)

    def refused(self, p, strict):
        for m in self.models:
            x = _value(p, m)
            if x is not None and (x <= 0 if strict else x < 0):
                return True
        return False

    def entails(self, p, strict):
        if self.refused(p, strict):
            STATS['by_model'] = STATS.get('by_model', 0) + 1
            return False
        g = self.tr.poly(p)
        self.flush()
        self.s.push()
        try:
            self.s.add(z3.Not(g > 0 if strict else g >= 0))
            r = _check(self.s)
            if r == z3.sat:
                self.learn(p)
            elif r == z3.unknown:
                return None
            return r == z3.unsat
        finally:
            self.s.pop()

    def learn(self, p):
        m = self.s.model()
        vals = {}
        for k in {a.key for q in self.rel + [p] for mono in q.m for a, e in mono}:
            x = self.tr.cache.get(k)
            if x is not None:
                v = m.eval(x, model_completion=True)
                if z3.is_int_value(v):
                    vals[k] = T.F(v.as_long())
                elif z3.is_rational_value(v):
                    vals[k] = v.as_fraction()
        if all((lambda y: y is not None and y >= 0)(_value(f, vals)) for f in self.rel):
            self.models.append(vals)
            if len(self.models) > 12:
                self.models.pop(0)


def _value(p, m):
    r = T.F(0)
    for mono, c in p.m.items():
        t = c
        for a, e in mono:
            v = m.get(a.key)
            if v is None and a.kind in ('var', 'app'):
                v = T.F(0)          # an atom without constraint
            if v is None or e.denominator != 1 or (e < 0 and v == 0):
                return None
            t = t * v ** int(e)
        r += t
    return r


_FRESH = re.compile(r'([a-z]+)#([RCIN]*)\d+')


def _canonical(text):
    names = {}

    def f(m):
        n = names.get(m.group(0))
        if n is None:
            n = names[m.group(0)] = '%s%%%s%d' % (m.group(1), m.group(2), len(names))
        return n
    return _FRESH.sub(f, text)


def entails(facts, p, strict=False, conds=()):
    """facts >= 0 (and the bracket conditions) entail p >= 0 (p > 0 when strict)."""
    rel = list(facts)
    fk = tuple(sorted({f.key for f in rel}))
    k = (p.key, strict, fk, tuple(sorted(c.key for c in conds)))
    if k in _cache:
        return _cache[k]
    if not conds:
        # the same question up to the names of fresh variables
        ck = (_canonical('%s|%s|%s' % (p.key, strict, '|'.join(f.key for f in rel))))
        if ck in _cache:
            _cache[k] = _cache[ck]
            return _cache[k]
        ctx = _contexts.get(fk)
        if ctx is None:
            if len(_contexts) > 300:
                _contexts.clear()
            ctx = _contexts[fk] = Context(rel)
        r = ctx.entails(p, strict)
        if r is not None:
            _cache[k] = _cache[ck] = r
            return r
    tr = Translation()
    s = z3.Solver()
    s.set('rlimit', RLIMIT)
    goal = tr.poly(p)
    goal = goal > 0 if strict else goal >= 0
    fs = [tr.poly(f) >= 0 for f in rel] + [tr.cond(c) for c in conds]
    s.add(*fs)
    s.add(*tr.side)
    s.add(z3.Not(goal))
    r = _check(s) == z3.unsat
    _cache[k] = r
    return r


def prove(facts, conds, goal_cond):
    """The conditions entail that the bracket polynomial goal_cond is 1.  Returns (True/False/None, None)."""
    k = _canonical('prove|%s|%s|%s' % (goal_cond.key, '|'.join(c.key for c in conds), '|'.join(f.key for f in facts)))
    if k in _cache:
        return _cache[k]
    tr = Translation()
    s = z3.Solver()
    s.set('rlimit', 5 * RLIMIT)
    g = tr.cond(goal_cond)
    fs = [tr.poly(f) >= 0 for f in facts] + [tr.cond(c) for c in conds]
    s.add(*fs)
    s.add(*tr.side)
    s.add(z3.Not(g))
    r = _check(s)
    _cache[k] = (True, None) if r == z3.unsat else (False, None) if r == z3.sat else (None, None)
    return _cache[k]


def satisfiable(facts, conds):
    """sat / unsat / unknown, with a model of the integer constants."""
    tr = Translation()
    s = z3.Solver()
    s.set('rlimit', RLIMIT)
    s.add(*[tr.poly(f) >= 0 for f in facts])
    s.add(*[tr.cond(c) for c in conds])
    s.add(*tr.side)
    r = _check(s)
    model = {}
    if r == z3.sat:
        m = s.model()
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                if z3.is_int_value(v):
                    model[d.name()] = v.as_long()
                elif z3.is_rational_value(v):
                    model[d.name()] = float(v.as_fraction())
    return str(r), model


def zero(p, path=()):
    """p == 0 follows, treating atoms as reals (complex atoms are refused)."""
    for mono in p.m:
        for a, e in mono:
            if a is T.I_ATOM or a.sort == 'c':
                return False
    tr = Translation()
    s = z3.Solver()
    s.set('rlimit', RLIMIT)
    s.set('timeout', 10000)
    try:
        x = tr.poly(p)
        s.add(*[tr.poly(f) >= 0 for f in T.FACTS])
        s.add(*[tr.cond(c) for c in path])
        s.add(*tr.side)
        s.add(x != 0)
        return _check(s) == z3.unsat
    except z3.Z3Exception:
        return False
