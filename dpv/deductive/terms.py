"""Terms over the reals, the complex numbers and the integers, kept in a canonical sum-of-products form.

A Poly is a finite sum of (rational coefficient) * (product of atoms to rational powers).  Atoms are variables, array
elements (App), known functions (exp, log, round, ...), powers of sums, Iverson brackets [p >= 0] and [p == 0], and
finite sums  Sum_{b: R} m  over integer binders b restricted by linear conditions R (a set of polynomials >= 0).
Every construction is an equality of mathematics, valid under the FACTS of the current context, so two terms with the
same canonical form are equal; two terms with different forms may still be equal, and then `equal` tries harder and
otherwise answers 'unknown', or 'different' when evaluation at sample valuations tells them apart."""
import itertools, hashlib, math, cmath, random
from fractions import Fraction as F

_ids = itertools.count()


class Undecided(Exception):
    """The text is outside what the verifier can follow."""


# ------------------------------------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ('kind', 'data', 'sort', 'key', 'free', 'nn', 'hash', 'maxb')

    def __repr__(self):
        return self.key

    def __hash__(self):
        return self.hash

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.key < other.key


_atoms = {}


def _mk(kind, data, sort, key, free, nn=False, maxb=-1):
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.data, a.sort, a.key, a.free, a.nn, a.maxb = kind, data, sort, key, free, nn, maxb
        a.hash = hash(key)
        _atoms[key] = a
    return a


def _join_free(polys):
    r = frozenset()
    for p in polys:
        r |= p.free
    return r


def _max_b(polys):
    return max([p.maxb for p in polys], default=-1)


# ------------------------------------------------------------------------------------------------ polynomials
class Poly:
    __slots__ = ('m', '_key', '_free', '_maxb')

    def __init__(self, m):
        self.m = m
        self._key = None
        self._free = None
        self._maxb = None

    @property
    def key(self):
        if self._key is None:
            parts = []
            for mono in sorted(self.m, key=mono_key):
                parts.append('%s*%s' % (self.m[mono], mono_key(mono)))
            self._key = ' + '.join(parts) if parts else '0'
        return self._key

    @property
    def free(self):
        if self._free is None:
            f = set()
            for mono in self.m:
                for a, e in mono:
                    f |= a.free
            self._free = frozenset(f)
        return self._free

    @property
    def maxb(self):
        if self._maxb is None:
            self._maxb = max([a.maxb for mono in self.m for a, e in mono], default=-1)
        return self._maxb

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, other):
        return isinstance(other, Poly) and self.key == other.key

    def __repr__(self):
        k = self.key
        return k if len(k) < 4000 else k[:4000] + '...'

    # arithmetic
    def __add__(self, o):
        o = P(o)
        if not self.m:
            return o
        if not o.m:
            return self
        r = dict(self.m)
        for k, c in o.m.items():
            c2 = r.get(k, 0) + c
            if c2 == 0:
                del r[k]
            else:
                r[k] = c2
        return Poly(r)
    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -c for k, c in self.m.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        if not self.m or not o.m:
            return ZERO
        r = {}
        for k1, c1 in self.m.items():
            for k2, c2 in o.m.items():
                for k, c in mono_mul(k1, k2).items():
                    v = r.get(k, 0) + c * c1 * c2
                    if v == 0:
                        r.pop(k, None)
                    else:
                        r[k] = v
        return Poly(r)
    __rmul__ = __mul__

    def __pow__(self, e):
        if isinstance(e, Poly):
            c = e.const()
            if c is None:
                return Poly({((_fun('pow', (self, e)), F(1)),): F(1)})
            e = c
        return power(self, F(e))

    def __truediv__(self, o):
        return self * power(P(o), F(-1))

    def __rtruediv__(self, o):
        return P(o) / self

    def const(self):
        """Rational value of a constant polynomial, otherwise None."""
        if not self.m:
            return F(0)
        if len(self.m) == 1 and () in self.m:
            return self.m[()]
        return None

    def is_int(self):
        r = all(c.denominator == 1 and all(a.sort == 'i' and e.denominator == 1 and e > 0 for a, e in k) for k, c in self.m.items())
        return r

    def is_real(self):
        for k in self.m:
            i = 0
            for a, e in k:
                if a is I_ATOM:
                    i = 1
                elif a.sort == 'c':
                    return conj(self) == self
            if i:
                return conj(self) == self
        return True

    def monos(self):
        return self.m.items()


def mono_key(mono):
    return '.'.join(a.key if e == 1 else '%s^%s' % (a.key, e) for a, e in mono) or '1'


ZERO = Poly({})
ONE = Poly({(): F(1)})
I_ATOM = _mk('const', 'I', 'c', 'I', frozenset())
PI_ATOM = _mk('const', 'pi', 'r', 'pi', frozenset(), nn=True)


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, F)):
        return Poly({(): F(x)}) if x else ZERO
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Undecided('non finite constant')
        # decimal literals stand for the decimal number written in the source
        return Poly({(): F(repr(x))}) if x else ZERO
    if isinstance(x, complex):
        return P(x.real) + P(x.imag) * I
    if isinstance(x, Atom):
        return Poly({((x, F(1)),): F(1)})
    raise Undecided('not a number: %r' % (x,))


def mono_mul(m1, m2):
    """Product of two monomials, as {mono: coefficient}."""
    if not m1:
        return {m2: F(1)}
    if not m2:
        return {m1: F(1)}
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return _mono_norm(d)


def _mono_norm(d):
    coef = F(1)
    items = []
    exps = [a for a in d if a.kind == 'fun' and a.data[0] == 'exp']
    extra = []
    if len(exps) > 1 or (len(exps) == 1 and d[exps[0]] != 1):
        arg = ZERO
        for a in exps:
            arg = arg + a.data[1][0] * d[a]
            del d[a]
        extra.append(exp(arg))
    sums = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.kind == 'iv':
            items.append((a, F(1)))
        elif a is I_ATOM:
            if e.denominator != 1:
                items.append((a, e))
            else:
                r = int(e) % 4
                if r == 1:
                    items.append((a, F(1)))
                elif r == 2:
                    coef = -coef
                elif r == 3:
                    coef = -coef
                    items.append((a, F(1)))
        elif a.kind == 'const' and type(a.data) is int:
            w = e.numerator // e.denominator        # whole powers of the root of a prime are numbers
            coef = coef * F(a.data) ** w
            if e != w:
                items.append((a, e - w))
        elif a.kind == 'pow' and e.denominator == 1 and e > 0:
            extra.append(power(a.data, e))          # (sum)^integer is expanded
        else:
            if a.kind == 'fun' and a.data[0] == 'abs' and e.denominator == 1 and int(e) % 2 == 0:
                extra.append(power(a.data[1][0], e))    # the square of the absolute value of a real number
            else:
                items.append((a, e))
    # brackets: contradictory or nested conditions
    ivs = [a for a, e in items if a.kind == 'iv']
    if len(ivs) > 1:
        r = _iv_product(ivs)
        if r is None:
            return {}
        if r is not ivs:
            items = [(a, e) for a, e in items if a.kind != 'iv'] + [(a, F(1)) for a in r]
    items.sort(key=lambda x: x[0].key)
    out = {tuple(items): coef}
    for x in extra:
        p = Poly(out) * x
        out = p.m
    return out


def _iv_product(ivs):
    """Simplifies a product of brackets on integers. None when contradictory."""
    for a, b in itertools.combinations(ivs, 2):
        op1, p1 = a.data
        op2, p2 = b.data
        d = (p1 + p2)
        if op1 == 'ge' and op2 == 'ge':
            c = d.const()
            if c is not None and c < 0:
                return None
            if c == 0:
                rest = [x for x in ivs if x is not a and x is not b]
                z = bracket_eq(p1)
                if z.const() is None and len(z.m) == 1:
                    (mono, co), = z.m.items()
                    if co == 1 and len(mono) == 1:
                        new = rest + ([mono[0][0]] if mono[0][0] not in rest else [])
                        return new if len(new) < 2 else (_iv_product(new) if _iv_product(new) is not new else new)
            c = (p1 - p2).const()
            if c is not None:
                return _again([x for x in ivs if x is not (a if c > 0 else b)])
        elif op1 == 'eq' and op2 == 'eq':
            c = (p1 - p2).const()
            if c is not None and c != 0:
                return None
            c = (p1 + p2).const()
            if c is not None and c != 0:
                return None
        else:
            e, g = (p1, p2) if op1 == 'eq' else (p2, p1)
            ga = b if op1 == 'eq' else a
            for s in (e, -e):
                c = (g - s).const()
                if c is not None:
                    if c < 0:
                        return None
                    return _again([x for x in ivs if x is not ga])
    return ivs


def _again(ivs):
    if len(ivs) < 2:
        return ivs
    r = _iv_product(ivs)
    return r


I = P(I_ATOM)
PI = P(PI_ATOM)
HALF = P(F(1, 2))


def power(p, e):
    if e == 0:
        return ONE
    if e == 1:
        return p
    if not p.m:
        if e < 0:
            return Poly({((_fun('div0', (ONE,)), F(1)),): F(1)})
        return ZERO
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        if e.denominator == 1:
            r = Poly({(): c ** int(e)})
            if mono:
                r = r * Poly(_mono_norm({a: x * e for a, x in mono}))
            return r
        if c > 0 and all(a.nn or (x / 1).denominator == 1 and int(x) % 2 == 0 and (x * e).denominator == 1 and int(x * e) % 2 == 0 and a.sort != 'c'
                         for a, x in mono):
            rc = _root(c, e)
            if rc is not None:
                return Poly(_mono_norm({a: x * e for a, x in mono})) * rc if mono else rc
    if e.denominator == 1 and e > 0:
        n = int(e)
        r = ONE
        base = p
        while n:
            if n & 1:
                r = r * base
            base = base * base
            n >>= 1
        return r
    # squares
    if e.denominator == 1 and len(p.m) == 3:
        q = _square_root(p)
        if q is not None:
            return power(q, 2 * e)
    # one exponential leaves the sum: 1/(exp(x) - 1) and exp(-x)/(1 - exp(-x)) have one form
    if e.denominator == 1:
        x, q = _expshift(p)
        if x is not None:
            return exp(x * e) * power(q, e)
    # common content is taken out so that scaled sums have one form
    c = _content(p)
    if c != 1:
        q = Poly({k: v / c for k, v in p.m.items()})
        if e.denominator == 1:
            return Poly({(): c ** int(e)}) * power(q, e)
        if c > 0:
            rc = _root(c, e)
            if rc is not None:
                return rc * power(q, e)
    # a common positive factor leaves the sum
    if e.denominator == 1:
        com = _common(p)
        if com:
            q = {}
            for mono, c in p.m.items():
                d = dict(mono)
                for a, k in com:
                    d[a] -= k
                    if not d[a]:
                        del d[a]
                m = tuple(sorted(d.items(), key=lambda x: x[0].key))
                q[m] = q.get(m, F(0)) + c
            return power(Poly({com: F(1)}), e) * power(Poly({m: c for m, c in q.items() if c}), e)
    a = _mk('pow', p, 'c' if not p.is_real() else 'r', '(%s)' % p.key, p.free, maxb=p.maxb,
            nn=False)
    return Poly({((a, e),): F(1)})


def _square_root(p):
    """u + v with (u + v)^2 = p (three terms), or None."""
    ms = list(p.m.items())

    def root(mono, c):
        if c <= 0 or any(a.kind == 'iv' or a is I_ATOM for a, e in mono):
            return None
        rc = _root(c, HALF.const())
        if rc is None or rc.const() is None:
            return None
        r = rc
        for a, e in mono:
            if a.kind == 'fun' and a.data[0] == 'exp':
                r = r * exp(a.data[1][0] * HALF)
            elif e.denominator == 1 and int(e) % 2 == 0:
                r = r * Poly({((a, e / 2),): F(1)})
            else:
                return None
        return r
    for k in range(3):
        (m1, c1), (m2, c2) = [ms[j] for j in range(3) if j != k]
        u, w = root(m1, c1), root(m2, c2)
        if u is None or w is None:
            continue
        cross = Poly({ms[k][0]: ms[k][1]})
        if cross == u * w * 2:
            return u + w
        if cross == u * w * -2:
            return u - w
    return None


def _expshift(p):
    """(x, q) with p = exp(x) q and q the same for all exp(y) p; (None, p) when there is nothing to do."""
    if not 2 <= len(p.m) <= 6:
        return None, p
    args = []
    for mono in p.m:
        a = [y for y, e in mono if y.kind == 'fun' and y.data[0] == 'exp']
        args.append(a[0].data[1][0] if a else ZERO)
    if not any(a.m for a in args):
        return None, p
    best = None
    for a in {a.key: a for a in args}.values():
        q = p * exp(-a)
        k = P(1) / _content(q) * q
        if best is None or k.key < best[0]:
            best = (k.key, a, q)
    if not best[1].m:
        return None, p
    return best[1], best[2]


def _content(p):
    """Coefficient of the first monomial: scaled sums share one base."""
    k = min(p.m, key=mono_key)
    c = p.m[k]
    return c


def _common(p):
    """Greatest common monomial of a sum (no brackets), as a monomial, or ()"""
    it = iter(p.m)
    first = next(it)
    d = {a: e for a, e in first if a.kind != 'iv' and a is not I_ATOM}
    for mono in it:
        o = dict(mono)
        for a in list(d):
            if a in o and (o[a] > 0) == (d[a] > 0):
                d[a] = min(d[a], o[a]) if d[a] > 0 else max(d[a], o[a])
            else:
                del d[a]
        if not d:
            return ()
    return tuple(sorted(d.items(), key=lambda x: x[0].key))


def _root(c, e):
    """c ** e for rational c>0, e: exact rational if possible, otherwise prime roots as atoms."""
    if c == 1:
        return ONE
    r = ONE
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        if n > 10 ** 12:
            return None
        k = 2
        while n > 1 and k * k <= n:
            x = 0
            while n % k == 0:
                n //= k
                x += 1
            if x:
                r = r * _prime(k, e * x * s)
            k += 1
            if k > 100000:
                return None
        if n > 1:
            r = r * _prime(n, e * s)
    return r


def _prime(k, e):
    whole = e.numerator // e.denominator
    frac = e - whole
    r = P(F(k) ** whole)
    if frac:
        a = _mk('const', k, 'r', 'root%d' % k, frozenset(), nn=True)
        r = r * Poly({((a, frac),): F(1)})
    return r


# ------------------------------------------------------------------------------------------------ constructors
def var(name, sort='r', nn=False):
    """A variable. sort i, r or c; nn: known to be >= 0."""
    return P(_mk('var', name, sort, name, frozenset([name]), nn=nn))


_fresh = itertools.count(1)


def fresh(name, sort='i', nn=False):
    return var('%s#%s%d' % (name, '' if sort == 'i' and not nn else sort.upper() + ('N' if nn else ''), next(_fresh)), sort, nn)


def var_name(p):
    (mono, c), = p.m.items()
    return mono[0][0].data


APP_REAL = {}


def app(name, args, sort='r', nn=False, cj=False):
    args = tuple(P(a) for a in args)
    key = '%s%s[%s]' % ('~' if cj else '', name, ', '.join(a.key for a in args))
    return P(_mk('app', (name, args, cj), sort, key, _join_free(args) | {name}, nn=nn, maxb=_max_b(args)))


def _fun(name, args, sort='r', nn=False):
    key = '%s(%s)' % (name, ', '.join(a.key for a in args))
    return _mk('fun', (name, tuple(args)), sort, key, _join_free(args), nn=nn, maxb=_max_b(args))


def fun(name, *args, sort='r', nn=False):
    return P(_fun(name, tuple(P(a) for a in args), sort, nn))


def exp(p):
    p = P(p)
    if not p.m:
        return ONE
    # multiples of i*pi/2
    k = ((I_ATOM, F(1)), (PI_ATOM, F(1)))
    if len(p.m) == 1 and k in p.m and (p.m[k] * 2).denominator == 1:
        return [ONE, I, -ONE, -I][int(p.m[k] * 2) % 4]
    # exp(2 pi i n) = 1 for integer n
    rest = {}
    drop = False
    for mono, c in p.m.items():
        if I_ATOM in [a for a, e in mono] and PI_ATOM in [a for a, e in mono]:
            o = [(a, e) for a, e in mono if a is not I_ATOM and a is not PI_ATOM]
            if dict(mono)[PI_ATOM] == 1 and all(a.sort == 'i' and e.denominator == 1 and e > 0 for a, e in o) and (c / 2).denominator == 1:
                drop = True
                continue
        rest[mono] = c
    if drop:
        return exp(Poly(rest))
    return P(_fun('exp', (p,), 'r' if p.is_real() else 'c', nn=p.is_real()))


def cos(p):
    return (exp(I * p) + exp(-I * p)) * HALF


def sin(p):
    return (exp(I * p) - exp(-I * p)) * HALF * (-I)


def conj(p):
    r = ZERO
    for mono, c in p.m.items():
        t = P(c)
        for a, e in mono:
            if a is I_ATOM:
                t = t * (-I)
            elif a.sort != 'c':
                t = t * Poly({((a, e),): F(1)})
            else:
                t = t * power(_conj_atom(a), e)
        r = r + t
    return r


def _conj_atom(a):
    if a.kind == 'var':
        n = a.data
        return var(n[1:], 'c') if n.startswith('~') else var('~' + n, 'c')
    if a.kind == 'app':
        n, args, cj = a.data
        return app(n, args, 'c', cj=not cj)
    if a.kind == 'fun' and a.data[0] == 'exp':
        return exp(conj(a.data[1][0]))
    if a.kind == 'pow':
        return P(_mk('pow', conj(a.data), 'c', '(%s)' % conj(a.data).key, a.free, maxb=a.maxb))
    if a.kind == 'sum':
        fr, R, body = open_sum(a)
        return sigma(fr, R, conj(body))
    if a.kind == 'fun' and a.data[0] == 'conj':
        return a.data[1][0]
    return fun('conj', P(a), sort='c')


def re(p):
    return (p + conj(p)) * HALF


def im(p):
    return (p - conj(p)) * HALF * (-I)


def absolute(p):
    p = P(p)
    if p.is_real():
        c = p.const()
        if c is not None:
            return P(abs(c))
        if nonneg(p):
            return p
        if p.m[min(p.m, key=mono_key)] < 0:
            p = -p
        return fun('abs', p, nn=True, sort='i' if p.is_int() else 'r')
    return power(p * conj(p), F(1, 2))


def sign(p):
    """-1, 0 or 1 for a real number."""
    return bracket_ge(p) - bracket_ge(-p)


def nonneg(p):
    """Syntactic test."""
    if all(c > 0 and all(a.nn or (e.denominator == 1 and int(e) % 2 == 0 and a.sort != 'c') for a, e in mono) for mono, c in p.m.items()):
        return True
    return False


def sqrt(p):
    return power(P(p), F(1, 2))


def log(p):
    """Logarithm of a positive number."""
    p = P(p)
    if not p.is_real() or not p.m:
        return fun('log', p)
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        if c > 0 and all(a.nn and a.sort != 'c' for a, e in mono):
            r = fun('log', P(c)) if c != 1 else ZERO
            for a, e in mono:
                r = r + (a.data[1][0] if a.kind == 'fun' and a.data[0] == 'exp' else fun('log', P(a))) * e
            return r
        return fun('log', p)
    x, q = _expshift(p)
    if x is not None:
        return x + log(q)
    c = _content(p)
    if c > 0 and c != 1:
        return fun('log', P(c)) + fun('log', Poly({k: v / c for k, v in p.m.items()}))
    if c < 0 and c != -1:
        return fun('log', P(-c)) + fun('log', Poly({k: v / -c for k, v in p.m.items()}))
    return fun('log', p)


def rnd(p):
    """numpy round: nearest integer, ties to even."""
    p = P(p)
    c = p.const()
    if c is not None:
        return P(round(c))
    if p.is_int():
        return p
    return fun('round', p, sort='i')


def floor(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return P(math.floor(c))
    if p.is_int():
        return p
    # an integer part leaves the floor
    whole = {m: c for m, c in p.m.items() if c.denominator == 1 and all(a.sort == 'i' and e.denominator == 1 and e > 0 for a, e in m)}
    if whole:
        rest = Poly({m: c for m, c in p.m.items() if m not in whole})
        return Poly(whole) + floor(rest)
    # floor((floor(y) + k) / b) = floor((y + k) / b) for integers k and b > 0
    for m, c in p.m.items():
        inner = [a for a, e in m if e == 1 and a.kind == 'fun' and a.data[0] == 'floor']
        if len(inner) != 1 or (F(1) / c).denominator != 1 or c < 0:
            continue
        below = [(a, e) for a, e in m if a is not inner[0]]
        if not all(a.sort == 'i' and a.nn and e < 0 and e.denominator == 1 for a, e in below):
            continue
        b = F(1) / c
        scale = P(b)
        for a, e in below:
            for _ in range(int(-e)):
                scale = scale * P(a)
        others = Poly({k: v for k, v in p.m.items() if k != m})
        if (others * scale).is_int():
            return floor(others + inner[0].data[1][0] / scale)
    return fun('floor', p, sort='i')


def floordiv(a, b):
    return floor(P(a) / P(b))


# ------------------------------------------------------------------------------------------------ brackets
FACTS = []          # polynomials known to be >= 0 (integer or real), or ('eq', p)
_ent_cache = {}


class facts:
    """Context: facts hold inside."""
    def __init__(self, *ps):
        self.ps = [P(p) for p in ps]

    def __enter__(self):
        self.n = len(FACTS)
        FACTS.extend(self.ps)

    def __exit__(self, *a):
        del FACTS[self.n:]


def bracket_ge(p):
    """[p >= 0]"""
    p = P(p)
    c = p.const()
    if c is not None:
        return ONE if c >= 0 else ZERO
    if nonneg(p):
        return ONE
    if p.is_int():
        g = 0
        for k, c in p.m.items():
            if k:
                g = math.gcd(g, int(c))
        if g > 1:
            c0 = p.m.get((), F(0))
            p = Poly({k: c / g for k, c in p.m.items() if k}) + P(c0 // g)
    else:
        c = abs(_content(p))
        if c != 1:
            p = Poly({k: v / c for k, v in p.m.items()})
    t = _linear_known(p)
    if t is not None:
        return ONE if t else ZERO
    return P(_mk('iv', ('ge', p), 'i', '[%s >= 0]' % p.key, p.free, nn=True, maxb=p.maxb))


def bracket_eq(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    if p.m[min(p.m, key=mono_key)] < 0:
        p = -p
    if p.is_int():
        g = 0
        for k, c in p.m.items():
            if k:
                g = math.gcd(g, int(c))
        if g > 1:
            c0 = p.m.get((), F(0))
            if c0 % g:
                return ZERO
            p = Poly({k: c / g for k, c in p.m.items()})
    else:
        p = Poly({k: c / _content(p) for k, c in p.m.items()})
    if p.is_int() and (_linear_known(p - 1) is True or _linear_known(-p - 1) is True):
        return ZERO
    return P(_mk('iv', ('eq', p), 'i', '[%s == 0]' % p.key, p.free, nn=True, maxb=p.maxb))


def ge(a, b):
    return bracket_ge(P(a) - P(b))


def lt(a, b):
    a, b = P(a), P(b)
    d = b - a
    if d.is_int():
        return bracket_ge(d - 1)
    return ONE - bracket_ge(-d)


def eq(a, b):
    return bracket_eq(P(a) - P(b))


def neg(c):
    """Complement of a condition."""
    if len(c.m) == 1:
        (mono, co), = c.m.items()
        if co == 1 and len(mono) == 1 and mono[0][0].kind == 'iv':
            op, p = mono[0][0].data
            if op == 'ge' and p.is_int():
                return bracket_ge(-p - 1)
    return ONE - c


def ite(c, a, b):
    a, b = P(a), P(b)
    if a == b:
        return a
    cc = c.const()
    if cc is not None:
        return a if cc else b
    return c * a + neg(c) * b


def _linear_known(p):
    """True: p>=0 follows from FACTS; False: p<=-1 follows (integers) ; None otherwise."""
    if not FACTS:
        return None
    k = (p.key, len(FACTS), tuple(f.key for f in FACTS))
    r = _ent_cache.get(k, 0)
    if r == 0:
        r = None
        if entails(FACTS, p):
            r = True
        elif entails(FACTS, -p - 1) if p.is_int() else entails(FACTS, -p, strict=True):
            r = False
        _ent_cache[k] = r
    return r


def entails(facts_, p, strict=False):
    from dpv.deductive import smt
    return smt.entails(facts_, p, strict)


# ------------------------------------------------------------------------------------------------ sums
def open_sum(a):
    """Fresh binders, condition list and body of a sum atom."""
    n, R, mono, names = a.data
    fr = [fresh('s') for _ in range(n)]
    sub = {nm: f for nm, f in zip(names, fr)}
    body = subst(Poly({mono: F(1)}), sub)
    return fr, [subst(r, sub) for r in R], body


def sum_range(i, lo, hi, body):
    """Sum_{i=lo}^{hi-1} body, i a fresh integer variable."""
    lo, hi, body = P(lo), P(hi), P(body)
    n = (hi - lo).const()
    if n is not None and n.denominator == 1 and n <= 8:
        r = ZERO
        for k in range(max(int(n), 0)):
            r = r + subst(body, {var_name(i): lo + k})
        return r
    return sigma([i], [i - lo, hi - 1 - i], body)


def sigma(binders, R, body):
    """Sum over the integer binders with all R >= 0 of body."""
    total = ZERO
    for mono, c in P(body).m.items():
        total = total + P(c) * _sigma_mono(list(binders), list(R), mono)
    return total


def _sigma_mono(binders, R, mono):
    names = {var_name(b) for b in binders}
    # nested sums to the first power are flattened
    for a, e in mono:
        if a.kind == 'sum' and e == 1 and (a.free & names):
            fr, R2, b2 = open_sum(a)
            rest = Poly({tuple(x for x in mono if x[0] is not a): F(1)})
            return sigma(binders + fr, R + R2, rest * b2)
    outside, inside = [], []
    conds = []
    for a, e in mono:
        if not (a.free & names):
            outside.append((a, e))
        elif a.kind == 'iv' and a.data[0] == 'ge':
            conds.append(a.data[1])
        elif a.kind == 'iv' and a.data[0] == 'eq':
            p = a.data[1]
            d = _solve_for(p, names)
            if d is not None:
                nm, val = d
                rest = Poly({tuple(x for x in mono if x[0] is not a): F(1)})
                sub = {nm: val}
                R2 = [subst(r, sub) for r in R]
                bs = [b for b in binders if var_name(b) != nm]
                body = subst(rest, sub)
                keep = []
                ns = names - {nm}
                for r in R2:
                    if r.free & ns:
                        keep.append(r)
                    else:
                        body = body * bracket_ge(r)
                if not bs:
                    return body
                return sigma(bs, keep, body)
            inside.append((a, e))
        else:
            inside.append((a, e))
    # [x == t]: an element t that depends on the binders is x (independent of them) in the other factors
    for a, e in inside:
        if a.kind == 'iv' and a.data[0] == 'eq':
            s = _solve_atom(a.data[1], names)
            if s is None:
                continue
            others = Poly({tuple(x for x in mono if x[0] is not a): F(1)})
            if s[0].data[0] not in others.free and not any(s[0].data[0] in r.free for r in R):
                continue
            new = deep(others, lambda y: s[1] if y is s[0] else None)
            R2 = [deep(r, lambda y: s[1] if y is s[0] else None) for r in R]
            if new != others or any(x != y for x, y in zip(R, R2)):
                return sigma(binders, R2, Poly({((a, e),): F(1)}) * new)
    R = R + conds
    out = Poly({tuple(outside): F(1)}) if outside else ONE
    # conditions without binders leave; constants are decided; duplicates merge
    R2, seen = [], set()
    for r in R:
        c = r.const()
        if c is not None:
            if c < 0:
                return ZERO
            continue
        if not (r.free & names):
            out = out * bracket_ge(r)
            continue
        if r.is_int():
            g = 0
            for k, v in r.m.items():
                if k:
                    g = math.gcd(g, int(v))
            if g > 1:
                r = Poly({k: v / g for k, v in r.m.items() if k}) + P(r.m.get((), F(0)) // g)
        if r.key not in seen:
            seen.add(r.key)
            R2.append(r)
    R = _tighten(R2)
    if R is None:
        return ZERO
    if not out.m:
        return ZERO
    # independent binder: only counts
    for b in binders:
        nm = var_name(b)
        if any(nm in a.free for a, e in inside):
            continue
        mine = [r for r in R if nm in r.free]
        if len(mine) == 2:
            lo = [r for r in mine if _coef(r, nm) == 1]
            hi = [r for r in mine if _coef(r, nm) == -1]
            if len(lo) == 1 and len(hi) == 1:
                lo = b - lo[0]
                hi = hi[0] + b
                n = hi - lo + 1
                rest = Poly({tuple(inside): F(1)}) * n * bracket_ge(n)
                bs = [x for x in binders if x is not b]
                others = [r for r in R if nm not in r.free]
                if not bs:
                    return out * rest
                return out * sigma(bs, others, rest)
    # a flattened pair of indices, read back by division, is the pair; the k-th index with a property is the index itself
    sp = _split_binder(binders, R, inside) or _nth_binder(binders, R, inside)
    if sp is not None:
        return out * sigma(*sp)
    # a binder confined to few constant values is expanded
    for b in binders:
        nm = var_name(b)
        los = [r for r in R if _coef(r, nm) == 1 and (b - r).const() is not None]
        his = [r for r in R if _coef(r, nm) == -1 and (b + r).const() is not None]
        if los and his:
            lo = max(int((b - r).const()) for r in los)
            hi = min(int((b + r).const()) for r in his)
            if hi - lo < 8:
                tot = ZERO
                bs = [x for x in binders if x is not b]
                for k in range(lo, hi + 1):
                    sub = {nm: P(k)}
                    body = subst(Poly({tuple(inside): F(1)}), sub)
                    rs = [subst(r, sub) for r in R]
                    if bs:
                        tot = tot + sigma(bs, rs, body)
                    else:
                        for r in rs:
                            body = body * bracket_ge(r)
                        tot = tot + body
                return out * tot
    return out * _close_sum(binders, R, tuple(inside))


def _atoms_of(inside, names):
    """Atoms anywhere below the given ones that depend on the binders."""
    seen, todo = {}, [a for a, e in inside]
    while todo:
        a = todo.pop()
        if a.key in seen or not (a.free & names):
            continue
        seen[a.key] = a
        if a.kind == 'pow':
            ps = [a.data]
        elif a.kind == 'iv':
            ps = [a.data[1]]
        elif a.kind in ('app', 'fun'):
            ps = a.data[1]
        elif a.kind == 'sum':
            ps = list(a.data[1]) + [Poly({a.data[2]: F(1)})]
        else:
            ps = []
        for p in ps:
            for mono in p.m:
                todo += [x for x, e in mono]
    return list(seen.values())


def _own_range(b, R):
    """n when the binder runs over 0..n-1 and nothing else restricts it."""
    nm = var_name(b)
    mine = [r for r in R if nm in r.free]
    if len(mine) != 2 or not any(r == b for r in mine):
        return None
    hi = [r for r in mine if r != b]
    if len(hi) != 1 or _coef(hi[0], nm) != -1:
        return None
    n = hi[0] + b + 1
    return None if nm in n.free else n


def _split_binder(binders, R, inside):
    for b in binders:
        nm = var_name(b)
        found = None
        for a in _atoms_of(inside, {nm}):
            if a.kind == 'fun' and a.data[0] == 'floor' and len(a.data[1][0].m) == 1:
                (mono, c), = a.data[1][0].m.items()
                size = P(b) / Poly({mono: c})
                if size.is_int() and nonneg(size) and not any(size.free & {var_name(x)} for x in binders) and size.m:
                    found = (a, size)
                    break
        if found is None:
            continue
        n = _own_range(b, R)
        if n is None:
            continue
        a, size = found
        count = n / size
        if not count.is_int():
            continue
        u, w = fresh('u', 'i'), fresh('w', 'i')
        body = deep(Poly({tuple(inside): F(1)}), lambda y: u if y is a else None)
        body = subst(body, {nm: size * u + w})
        rest = [r for r in R if nm not in r.free]
        return [x for x in binders if x is not b] + [u, w], rest + [u, count - 1 - u, w, size - 1 - w], body
    return None


def nth(k, n, cond):
    """The k-th index i < n with cond(i); cond a term of _l1."""
    return fun('nth', k, n, cond, sort='i', nn=True)


def nth_count(n, cond):
    i = fresh('i')
    return sum_range(i, 0, n, subst(cond, {'_l1': i}))


def _nth_binder(binders, R, inside):
    for b in binders:
        nm = var_name(b)
        at = [a for a in _atoms_of(inside, {nm}) if a.kind == 'fun' and a.data[0] == 'nth' and nm in a.data[1][0].free]
        if len(at) != 1 or at[0].data[1][0] != b:
            continue
        a = at[0]
        k, n, cond = a.data[1]
        m = _own_range(b, R)
        if m is None or m != nth_count(n, cond) or {nm} & (n.free | cond.free):
            continue
        i = fresh('i')
        body = deep(Poly({tuple(inside): F(1)}), lambda y: i if y is a else None)
        if nm in body.free:
            continue
        rest = [r for r in R if nm not in r.free]
        return [x for x in binders if x is not b] + [i], rest + [i, n - 1 - i], body * subst(cond, {'_l1': i})
    return None


def _tighten(R):
    """Drops conditions implied by another one with the same linear part."""
    best = {}
    for r in R:
        c0 = r.m.get((), F(0))
        lin = tuple(sorted((mono_key(k), v) for k, v in r.m.items() if k))
        if lin in best:
            if c0 < best[lin][0]:
                best[lin] = (c0, r)
        else:
            best[lin] = (c0, r)
    R = [r for c, r in best.values()]
    for i in range(len(R)):
        for j in range(i):
            c = (R[i] + R[j]).const()
            if c is not None and c < 0:
                return None
    return R


def _coef(p, name):
    """Coefficient of a variable occurring linearly with constant coefficient (None when otherwise)."""
    c = None
    for mono, v in p.m.items():
        if any(name in a.free for a, e in mono):
            if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].kind == 'var':
                c = v
            else:
                return None
    return c


def _solve_for(p, names):
    for nm in sorted(names):
        if nm in p.free:
            c = _coef(p, nm)
            if c in (1, -1):
                v = var(nm, 'i')
                val = v - p * c
                if nm not in val.free and val.is_int():
                    return nm, val
    return None


def _solve_atom(p, names):
    """(array element that depends on the binders, its value independent of them) when p == 0 says so."""
    found = None
    for mono, v in p.m.items():
        if any(a.free & names for a, e in mono):
            if found is not None or len(mono) != 1 or mono[0][1] != 1 or mono[0][0].kind != 'app' or v not in (1, -1):
                return None
            found = (mono[0][0], v)
    if found is None:
        return None
    a, v = found
    return a, P(a) - p * v


def _close_sum(binders, R, inside):
    """Canonical atom of a sum: binders named by the arrangement with the smallest key."""
    body = Poly({inside: F(1)})
    base = max([body.maxb] + [r.maxb for r in R] + [-1]) + 1
    n = len(binders)
    best = None
    orders = list(itertools.permutations(range(n))) if n <= 4 else [tuple(_heur_order(binders, R, body))]
    for order in orders:
        sub = {var_name(binders[k]): var('_b%d' % (base + pos), 'i') for pos, k in enumerate(order)}
        b2 = subst(body, sub)
        r2 = sorted((subst(r, sub) for r in R), key=lambda r: r.key)
        key = 'SUM%d{%s}(%s)' % (base, '; '.join(r.key for r in r2), b2.key)
        if best is None or key < best[0]:
            best = (key, r2, b2)
    key, r2, b2 = best
    (mono, c), = b2.m.items()
    names = tuple('_b%d' % (base + k) for k in range(n))
    free = b2.free
    for r in r2:
        free = free | r.free
    sort = 'i' if b2.is_int() else ('r' if all(a.sort != 'c' for a, e in mono) else 'c')
    a = _mk('sum', (n, tuple(r2), mono, names), sort, key, free - frozenset(names), nn=all(x.nn or x.sort != 'c' and e.denominator == 1 and int(e) % 2 == 0 for x, e in mono), maxb=base + n - 1)
    return Poly({((a, F(1)),): c})


def _heur_order(binders, R, body):
    keys = []
    for k, b in enumerate(binders):
        sub = {var_name(x): var('_x', 'i') for x in binders if x is not b}
        sub[var_name(b)] = var('_y', 'i')
        keys.append((subst(body, sub).key + '|'.join(sorted(subst(r, sub).key for r in R)), k))
    return [k for _, k in sorted(keys)]


# ------------------------------------------------------------------------------------------------ substitution
def subst(p, sub):
    """Substitutes variables (by name)."""
    if not (p.free & sub.keys()):
        return p
    return rewrite(p, lambda a: _subst_atom(a, sub))


def _subst_atom(a, sub):
    if a.kind == 'var':
        if a.data in sub:
            return sub[a.data]
        return None
    if not (a.free & sub.keys()):
        return None
    return rebuild(a, lambda q: subst(q, sub))


def rebuild(a, f):
    """Atom with f applied to its parts."""
    if a.kind == 'app':
        n, args, cj = a.data
        return app(n, [f(x) for x in args], a.sort, a.nn, cj)
    if a.kind == 'fun':
        return refun(a.data[0], [f(x) for x in a.data[1]], a)
    if a.kind == 'pow':
        return P(a) if False else _PowBase(f(a.data))
    if a.kind == 'iv':
        op, p = a.data
        return bracket_ge(f(p)) if op == 'ge' else bracket_eq(f(p))
    if a.kind == 'sum':
        fr, R, body = open_sum(a)
        R2 = [f(r) for r in R]
        return sigma(fr, R2, f(body))
    return P(a)


class _PowBase:
    def __init__(self, p):
        self.p = p


def refun(name, args, a):
    if name == 'exp':
        return exp(args[0])
    if name == 'log':
        return log(args[0])
    if name == 'abs':
        return absolute(args[0])
    if name == 'round':
        return rnd(args[0])
    if name == 'floor':
        return floor(args[0])
    return P(_fun(name, tuple(args), a.sort, a.nn))


def rewrite(p, f):
    """Replaces each atom a by f(a) (None: unchanged)."""
    r = ZERO
    for mono, c in p.m.items():
        t = None
        for a, e in mono:
            x = f(a)
            if x is None:
                x = Poly({((a, e),): F(1)})
            elif isinstance(x, _PowBase):
                x = power(x.p, e)
            elif e != 1:
                x = power(x, e)
            t = x if t is None else t * x
        r = r + (t * c if t is not None else P(c))
    return r


def deep(p, f):
    """rewrite that also reaches the arguments of functions, sums and brackets."""
    memo = {}

    def g(a):
        if a in memo:
            return memo[a]
        x = f(a)
        if x is None and a.kind in ('app', 'fun', 'pow', 'sum', 'iv'):
            if a.kind == 'iv':
                q = rewrite(a.data[1], g)
                x = None if q == a.data[1] else (bracket_ge(q) if a.data[0] == 'ge' else bracket_eq(q))
            else:
                x = rebuild(a, lambda q: rewrite(q, g))
        memo[a] = x
        return x
    return rewrite(p, g)


def replace_app(p, name, fn, memo=None):
    """Replaces every element name[args] by fn(*args)."""
    def f(a):
        if name not in a.free:
            return None
        if a.kind == 'app' and a.data[0] == name:
            args = [replace_app(x, name, fn) for x in a.data[1]]
            r = fn(*args)
            return conj(r) if a.data[2] else r
        return rebuild(a, lambda q: replace_app(q, name, fn))
    if name not in p.free:
        return p
    return rewrite(p, f)


# ------------------------------------------------------------------------------------------------ evaluation
class EvalError(Exception):
    pass


class Valuation:
    """Pseudo-random values for variables and array elements."""
    def __init__(self, seed, ints=None, reals=None, apps=None, int_apps=None):
        self.seed = seed
        self.ints = dict(ints or {})
        self.reals = dict(reals or {})
        self.apps = apps or {}
        self.budget = 400000

    def _h(self, text):
        d = hashlib.sha256(('%s|%s' % (self.seed, text)).encode()).digest()
        return int.from_bytes(d[:7], 'big') / float(1 << 56)

    def var(self, a):
        n = a.data
        cj = n.startswith('~')
        n = n.lstrip('~')
        if n in self.ints:
            return self.ints[n]
        if n in self.reals:
            return self.reals[n]
        if a.sort == 'i':
            v = int(self._h(n) * 4) + 1
        elif a.sort == 'r':
            v = self._h(n) * 2 + 0.3 if a.nn else self._h(n) * 3 - 1.4
        else:
            v = complex(self._h(n + 're') * 3 - 1.4, self._h(n + 'im') * 3 - 1.6)
            v = v.conjugate() if cj else v
        return v

    def app(self, a, args):
        n, _, cj = a.data
        if n in self.apps:
            v = self.apps[n](self, *args)
            return v.conjugate() if cj and isinstance(v, complex) else v
        t = n + repr(tuple(int(x) if abs(x - round(x)) < 1e-9 else round(x, 9) for x in args)) if not any(isinstance(x, complex) for x in args) \
            else n + repr(args)
        if a.sort == 'i':
            return int(self._h(t) * 4)
        if a.sort == 'r':
            return self._h(t) * 2 + 0.3 if a.nn else self._h(t) * 3 - 1.4
        v = complex(self._h(t + 're') * 3 - 1.4, self._h(t + 'im') * 3 - 1.6)
        return v.conjugate() if cj else v


FUNS = {'exp': lambda x: cmath.exp(x) if isinstance(x, complex) else math.exp(min(x, 700)),
        'log': lambda x: math.log(x), 'abs': abs,
        'round': lambda x: round(x), 'cround': lambda x: math.copysign(math.floor(abs(x) + 0.5), x), 'floor': lambda x: math.floor(x + 1e-12),
        'atan2': math.atan2, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan,
        'min': min, 'max': max, 'trunc': lambda x: int(x), 'conj': lambda x: x.conjugate()}


def evaluate(p, v, env=None):
    env = env or {}
    r = 0.0
    for mono, c in p.m.items():
        t = float(c)
        zero = False
        # brackets first: they guard the rest
        for a, e in mono:
            if a.kind == 'iv':
                if not eval_iv(a, v, env):
                    zero = True
                    break
        if zero:
            continue
        for a, e in mono:
            if a.kind == 'iv':
                continue
            x = eval_atom(a, v, env)
            if e == 1:
                t = t * x
            else:
                if e.denominator == 1:
                    if x == 0 and e < 0:
                        raise EvalError('division by zero')
                    t = t * x ** int(e)
                else:
                    if not isinstance(x, complex) and x < 0:
                        if x > -1e-12:
                            x = 0.0
                        else:
                            raise EvalError('root of a negative number')
                    if isinstance(x, complex) and abs(x.imag) < 1e-12:
                        x = x.real
                    if x == 0 and e < 0:
                        raise EvalError('division by zero')
                    t = t * x ** float(e)
        r = r + t
    return r


def eval_iv(a, v, env):
    op, p = a.data
    x = evaluate(p, v, env)
    if isinstance(x, complex):
        if op == 'eq':
            return abs(x) < 1e-9
        x = x.real
    return x >= -1e-9 if op == 'ge' else abs(x) < 1e-9


def eval_atom(a, v, env):
    v.budget -= 1
    if v.budget < 0:
        raise EvalError('too large')
    if a.kind == 'var':
        if a.data in env:
            return env[a.data]
        return v.var(a)
    if a.kind == 'const':
        return 1j if a is I_ATOM else (math.pi if a is PI_ATOM else float(a.data))
    if a.kind == 'app':
        return v.app(a, [evaluate(x, v, env) for x in a.data[1]])
    if a.kind == 'fun':
        n, args = a.data
        if (n not in FUNS or n in ('min', 'max')) and any(('_l0' in x.free or '_l1' in x.free) for x in args) and '_l0' not in env:
            return _functional(a, n, args, v, env)
        vals = [evaluate(x, v, env) for x in args]
        vals = [x.real if isinstance(x, complex) and abs(x.imag) < 1e-12 and n not in ('exp', 'conj') else x for x in vals]
        if n in FUNS:
            try:
                return FUNS[n](*vals)
            except (ValueError, OverflowError, TypeError) as ex:
                raise EvalError(str(ex))
        return v._h(n + _digits(vals)) * 3 - 1.4
    if a.kind == 'pow':
        return evaluate(a.data, v, env)
    if a.kind == 'sum':
        n, R, mono, names = a.data
        body = Poly({mono: F(1)})
        return _eval_sum(list(names), list(R), body, v, dict(env))
    raise EvalError(a.kind)


def _digits(vals):
    out = []
    for x in vals:
        x = complex(x)
        m = max(abs(x.real), abs(x.imag))
        out.append('%.6e,%.6e' % (x.real if abs(x.real) > 1e-9 * m else 0.0, x.imag if abs(x.imag) > 1e-9 * m else 0.0))
    return ';'.join(out)


def _functional(a, n, args, v, env):
    """Value of a functional of sampled functions (of _l0 and _l1): matrix functions are computed, quadratures and
    interpolations are some functional that is linear in the sampled function, others are any functional of it."""
    def samples(p, size, two=None):
        two = '_l1' in p.free if two is None else two
        e = dict(env)
        r = []
        for i in range(size):
            e['_l0'] = i
            if two:
                row = []
                for j in range(size):
                    e['_l1'] = j
                    row.append(evaluate(p, v, e))
                r.append(row)
            else:
                r.append(evaluate(p, v, e))
        return r

    def size_of(p):
        k = evaluate(p, v, env)
        k = k.real if isinstance(k, complex) else k
        if abs(k - round(k)) > 1e-9 or not 0 <= k <= 40:
            raise EvalError('size')
        return int(round(k))
    if n == 'prod':
        r = 1.0
        for x in samples(args[1], size_of(args[0]), False):
            r = r * x
        return r
    if n == 'det':
        return _gauss(samples(args[1], size_of(args[0]), True))[0]
    if n in ('max', 'min', 'argmax', 'argmin') and len(args) == 2:
        xs = [x.real if isinstance(x, complex) else x for x in samples(args[1], size_of(args[0]), False)]
        if not xs:
            raise EvalError('empty')
        best = max(xs) if 'max' in n else min(xs)
        return xs.index(best) if n.startswith('arg') else best
    if n == 'inv':
        i, j, k = [size_of(x) for x in args[:3]]
        d, m = _gauss(samples(args[3], k, True))
        if m is None or i >= k or j >= k:
            raise EvalError('singular')
        return m[i][j]
    if n in ('simps', 'trapz') and len(args) == 3:
        k = size_of(args[0])
        x = _digits(samples(args[1], k, False))
        return sum((v._h('%s%d%s' % (n, j, x)) + .1) * y for j, y in enumerate(samples(args[2], k, False)))
    if n == 'interp' and len(args) == 4:
        k = size_of(args[1])
        x = _digits([evaluate(args[0], v, env)] + samples(args[2], k, False))
        return sum((v._h('%s%d%s' % (n, j, x)) + .1) * y for j, y in enumerate(samples(args[3], k, False)))
    flat = []
    for p in args:
        for x in (samples(p, 3) if ('_l0' in p.free or '_l1' in p.free) else [evaluate(p, v, env)]):
            flat += x if isinstance(x, list) else [x]
    return v._h(n + _digits(flat)) * 3 - 1.4


def _gauss(m):
    """(determinant, inverse) of a small matrix."""
    k = len(m)
    a = [list(r) + [1.0 if i == j else 0.0 for j in range(k)] for i, r in enumerate(m)]
    d = 1.0
    for c in range(k):
        p = max(range(c, k), key=lambda r: abs(a[r][c]))
        if abs(a[p][c]) < 1e-9:
            return 0.0, None
        if p != c:
            a[p], a[c] = a[c], a[p]
            d = -d
        d = d * a[c][c]
        a[c] = [x / a[c][c] for x in a[c]]
        for r in range(k):
            if r != c:
                f = a[r][c]
                a[r] = [x - f * y for x, y in zip(a[r], a[c])]
    return d, [r[k:] for r in a]


def _eval_sum(names, R, body, v, env):
    if not names:
        for r in R:
            if evaluate(r, v, env) < -1e-9:
                return 0.0
        return evaluate(body, v, env)
    for nm in names:
        others = set(names) - {nm}
        lo, hi = None, None
        for r in R:
            if nm in r.free and not (r.free & others):
                c = _coef(r, nm)
                if c is None:
                    continue
                rest = evaluate(r - var(nm, 'i') * c, v, env)
                if isinstance(rest, complex):
                    rest = rest.real
                b = -rest / float(c)
                if c > 0:
                    b = math.ceil(b - 1e-9)
                    lo = b if lo is None else max(lo, b)
                else:
                    b = math.floor(b + 1e-9)
                    hi = b if hi is None else min(hi, b)
        if lo is not None and hi is not None:
            tot = 0.0
            if hi - lo > 300:
                raise EvalError('long sum')
            for k in range(lo, hi + 1):
                env[nm] = k
                tot = tot + _eval_sum([x for x in names if x != nm], R, body, v, env)
            env.pop(nm, None)
            return tot
    raise EvalError('unbounded sum')


# ------------------------------------------------------------------------------------------------ equality
def clear_denominators(p, rounds=4):
    """Multiplies by the denominators (assumed non-zero) until none is left."""
    for _ in range(rounds):
        best = {}
        for mono in p.m:
            for a, e in mono:
                if e < 0 and a.kind in ('pow', 'fun', 'app', 'var', 'sum'):
                    e2 = F(math.floor(e))
                    if a.kind == 'pow' and e2 != e:
                        pass
                    best[a] = min(best.get(a, 0), e)
        best = {a: e for a, e in best.items()}
        if not best:
            return p
        # expanding only sums is needed; common powers of simple atoms do not harm
        r = ZERO
        for mono, c in p.m.items():
            t = P(c)
            d = dict(mono)
            for a in best:
                d[a] = d.get(a, F(0)) - best[a]
            for a, e in d.items():
                if e == 0:
                    continue
                if a.kind == 'pow' and e > 0:
                    w = F(math.floor(e))
                    t = t * power(a.data, w) if w else t
                    if e != w:
                        t = t * Poly({((a, e - w),): F(1)})
                else:
                    t = t * Poly({((a, e),): F(1)})
            r = r + t
        p = r
    return p


def merge_complements(p):
    """[c] m + [not c] m = m, at top level and in the conditions of sums, to a fixed point."""
    changed = True
    rounds = 0
    while changed and rounds < 6:
        changed = False
        rounds += 1
        # complements at top level
        ivs = sorted({a for mono in p.m for a, e in mono if a.kind == 'iv' and a.data[0] == 'ge' and a.data[1].is_int()}, key=lambda a: a.key)
        for a in ivs:
            n = neg(P(a))
            if n.const() is not None:
                continue
            (mono, c), = n.m.items()
            na = mono[0][0]
            if na in ivs and a.key < na.key:
                p = rewrite(p, lambda x: ONE - P(a) if x is na else None)
                changed = True
                break
        if changed:
            continue
        # sums that differ by a complementary condition
        sums = [(mono, x) for mono in p.m for x, e in mono if x.kind == 'sum' and e == 1]
        for (m1, s1), (m2, s2) in itertools.combinations(sums, 2):
            if s1.data[0] != s2.data[0] or s1.data[2] != s2.data[2] or p.m.get(m1) != p.m.get(m2):
                continue
            if tuple(x for x in m1 if x[0] is not s1) != tuple(x for x in m2 if x[0] is not s2):
                continue
            R1, R2 = set(s1.data[1]), set(s2.data[1])
            d1, d2 = R1 - R2, R2 - R1
            if len(d1) == 1 and len(d2) == 1 and (list(d1)[0] + list(d2)[0] + 1) == ZERO:
                c = p.m[m1]
                names = s1.data[3]
                fr = [fresh('s') for _ in names]
                sub = dict(zip(names, fr))
                com = [subst(r, sub) for r in (R1 & R2)]
                s = sigma(fr, com, subst(Poly({s1.data[2]: F(1)}), sub))
                rest = Poly({tuple(x for x in m1 if x[0] is not s1): c})
                p = p - Poly({m1: c}) - Poly({m2: c}) + rest * s
                changed = True
                break
    return p


def equal(a, b, valuations=(), path=(), last=True):
    """'equal', 'different' (with the valuation) or 'unknown', under FACTS and the path conditions (brackets that are 1)."""
    d = P(a) - P(b)
    if not d.m:
        return 'equal', None
    d = _assume_all(d, path)
    if not d.m:
        return 'equal', None
    d = resolve(d)
    d2 = merge_complements(d)
    if not d2.m:
        return 'equal', None
    try:
        d3 = clear_denominators(d2)
        d3 = merge_complements(resolve(d3))
        if not d3.m:
            return 'equal', None
    except RecursionError:
        d3 = d2
    try:
        d4 = canon_sums(d3)
        if not d4.m:
            return 'equal', None
        if _split_zero(d2, 6):
            return 'equal', None
    except RecursionError:
        pass
    ok = 0
    for v in valuations:
        try:
            if any(abs(evaluate(c, v) - 1) > 1e-9 for c in path):
                continue
            x = evaluate(P(a), v)
            y = evaluate(P(b), v)
        except (EvalError, OverflowError, ZeroDivisionError):
            continue
        ok += 1
        if abs(x - y) > 1e-7 * (1 + abs(x) + abs(y)):
            return 'different', (v.seed, dict(v.ints), x, y)
    # z3 as a last resort, on purely polynomial differences
    from dpv.deductive import smt
    if last and smt.zero(d3 if len(d3.key) < len(d2.key) else d2, path):
        return 'equal', 'z3'
    return 'unknown', 'no normal form difference at %d sample valuations; residual %r' % (ok, d2)


def canon_sums(p):
    """Sums over one index run from 0, in the direction with the smaller key."""
    def f(a):
        r = rebuild(a, canon_sums) if a.maxb >= 0 or a.kind in ('sum', 'fun') else None
        r = P(a) if r is None else r
        if isinstance(r, _PowBase) or len(r.m) != 1:
            return r
        (mono, c), = r.m.items()
        if len(mono) != 1 or mono[0][0].kind != 'sum' or mono[0][0].data[0] != 1 or mono[0][1] != 1:
            return r
        fr, rel, body = open_sum(mono[0][0])
        b = fr[0]
        nm = var_name(b)
        lo = hi = None
        for q in rel:
            k = _coef(q, nm)
            if k == 1 and lo is None:
                lo = b - q
            elif k == -1 and hi is None:
                hi = b + q
            else:
                return r
        if lo is None or hi is None or nm in lo.free or nm in hi.free:
            return r
        n = hi - lo
        cands = [sigma([b], [b, n - b], subst(body, {nm: x})) for x in (b + lo, hi - b)]
        return c * min(cands, key=lambda q: q.key)
    return rewrite(p, f)


def _split_zero(d, depth):
    """p is 0 by cases on its outer brackets: in each case the bracket is assumed, or its complement."""
    if not d.m:
        return True
    if depth == 0 or len(d.m) > 400:
        return False
    best = None
    for mono in d.m:
        for a, e in mono:
            if a.kind == 'iv' and not any(n.startswith('_b') for n in a.free):
                if best is None or len(a.key) < len(best.key):
                    best = a
    if True:
        # also brackets inside function arguments and sums: the smallest bracket first
        seen = set()

        def scan(p):
            nonlocal best
            for mono in p.m:
                for a, e in mono:
                    if a.key in seen:
                        continue
                    seen.add(a.key)
                    if a.kind == 'iv':
                        if not any(n.startswith('_') for n in a.free) and (best is None or len(a.key) < len(best.key)):
                            best = a
                        scan(a.data[1])
                    elif a.kind in ('app', 'fun'):
                        for x in a.data[1]:
                            scan(x)
                    elif a.kind == 'pow':
                        scan(a.data)
                    elif a.kind == 'sum':
                        for r in a.data[1]:
                            scan(r)
                        scan(Poly({a.data[2]: F(1)}))
        scan(d)
    if best is None:
        return False
    op, q = best.data
    cases = [(P(best), [q] if op == 'ge' else [q, -q])]
    if op == 'ge':
        cases.append((neg(P(best)), [-q - 1] if q.is_int() else []))
    else:
        cases.append((None, []))
    for c, fs in cases:
        x = deep(d, lambda a: ZERO if a is best else None) if c is None else _assume(d, c)
        if c is not None and c is not cases[0][0]:
            x = deep(x, lambda a: ZERO if a is best else None)
        with facts(*fs):
            x = merge_complements(resolve(x))
            if not _split_zero(x, depth - 1):
                return False
    return True


def _assume_all(d, path):
    for c in path:
        d = _assume(d, c)
        if not d.m:
            return d
    # equalities between array elements reach the arguments of the others
    if sum(1 for c in path if 'iv' in {a.kind for m in c.m for a, e in m} and 'app' in _kinds(c)) > 1:
        conds = list(path)
        for turn in range(3):
            old = d
            for i in range(len(conds)):
                c = conds[i]
                d = _assume(d, c)
                conds = [x if j == i else _assume(x, c) for j, x in enumerate(conds)]
                if any(not x.m for x in conds):
                    return ZERO         # the path cannot be taken
            if not d.m or d == old and turn:
                break
    return d


def _kinds(c):
    out = set()

    def f(a):
        out.add(a.kind)
        return None
    deep(c, f)
    return out


def _replace_equal(p, d):
    """p where d == 0 equates two array elements (one of them replaced by the other)."""
    if len(d.m) != 2 or d.const() is not None:
        return p
    (m1, c1), (m2, c2) = sorted(d.m.items(), key=lambda t: mono_key(t[0]))
    if c1 != -c2 or c1 not in (1, -1) or len(m1) != 1 or len(m2) != 1 or m1[0][1] != 1 or m2[0][1] != 1:
        return p
    x, y = m1[0][0], m2[0][0]
    # the longer name goes
    if y.kind == 'app' and len(repr(P(y))) > len(repr(P(x))) or x.kind != 'app':
        x, y = y, x
    if x.kind != 'app' or y.kind not in ('app', 'var') or repr(P(x)) in repr(P(y)):
        return p
    return deep(p, lambda a: P(y) if a == x else None)


def _assume(p, c):
    """p where the brackets of the condition c (a product) have the value 1."""
    if len(c.m) == 1:
        (mono, co), = c.m.items()
        if co == 1:
            ivs = {a for a, e in mono if a.kind == 'iv'}
            comp = set()
            for a in ivs:
                n = neg(P(a))
                if len(n.m) == 1 and n.const() is None:
                    (m2, c2), = n.m.items()
                    comp.add(m2[0][0])

            def f(x):
                if x in ivs:
                    return ONE
                if x in comp:
                    return ZERO
                return None
            p = deep(p, f)
            # equalities are substituted
            for a in ivs:
                if a.data[0] == 'eq':
                    s = _solve_for(a.data[1], {n for n in a.data[1].free})
                    if s is not None and s[0] not in s[1].free:
                        p = subst(p, {s[0]: s[1]})
                    else:
                        p = _replace_equal(p, a.data[1])
            return p
    # 1 - [x] = 1: x false
    n = ONE - c
    if len(n.m) == 1:
        (mono, co), = n.m.items()
        if co == 1 and len(mono) == 1 and mono[0][0].kind == 'iv':
            at = mono[0][0]
            return deep(p, lambda x: ZERO if x is at else None)
    return p


def resolve(p):
    """Applies FACTS to the brackets of p and to the conditions of its sums."""
    def f(a):
        if a.kind == 'iv':
            op, q = a.data
            q2 = resolve(q)
            return bracket_ge(q2) if op == 'ge' else bracket_eq(q2)
        if a.kind == 'sum':
            fr, R, body = open_sum(a)
            R2 = []
            for k, r in enumerate(R):
                others = [x for j, x in enumerate(R) if j != k and (j > k or x in R2)]
                if FACTS or len(R) > 2:
                    if entails(list(FACTS) + others, r):
                        continue
                R2.append(r)
            # brackets of the body decided by the conditions
            with facts(*R2):
                body2 = resolve(body)
            return sigma(fr, R2, body2)
        if a.kind in ('app', 'fun', 'pow'):
            return rebuild(a, resolve)
        return None
    return rewrite(p, f)
