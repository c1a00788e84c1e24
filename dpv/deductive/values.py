"""Values of the symbolic interpreter: arrays given by their element term, sequences, objects."""
from fractions import Fraction as F
from dpv.deductive import terms as T
from dpv.deductive.terms import P, Poly, Undecided

_d = [T.var('@%d' % k, 'i', nn=True) for k in range(12)]


def D(k):
    """Index variable of axis k of an array term."""
    return _d[k]


class Bool:
    """A condition that is not decided: an indicator term."""
    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return 'Bool(%r)' % self.p


def mkbool(p):
    c = p.const()
    if c is not None:
        return bool(c)
    return Bool(p)


class Arr:
    """Immutable array content: element [i0,..] is expr with @0:=i0, ..."""
    def __init__(self, shape, expr, dtype=None):
        self.shape = tuple(P(s) for s in shape)
        self.expr = P(expr)
        if dtype is None:
            dtype = 'i' if self.expr.is_int() else ('f' if self.expr.is_real() else 'c')
        self.dtype = dtype

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, *ix):
        return T.subst(self.expr, {'@%d' % k: P(x) for k, x in enumerate(ix)})

    def key(self):
        return 'Arr(%s|%s|%s)' % (','.join(s.key for s in self.shape), self.expr.key, self.dtype)

    def map(self, f):
        """f on the element term and the shape."""
        return Arr([f(s) for s in self.shape], f(self.expr), self.dtype)

    def __repr__(self):
        return self.key()[:500]


def arr(name, shape, sort='r', nn=False):
    """Unknown array named name."""
    return Arr(shape, T.app(name, [D(k) for k in range(len(shape))], sort, nn), {'r': 'f', 'c': 'c', 'i': 'i'}[sort])


def arr_of(shape, f, dtype=None):
    """Array with element f(i0, i1, ...)."""
    return Arr(shape, f(*[D(k) for k in range(len(shape))]), dtype)


def same_dim(a, b):
    a, b = P(a), P(b)
    if a == b:
        return True
    d = a - b
    if d.const() is not None:
        return False
    return T.bracket_eq(d).const() == 1 or (T.entails(list(T.FACTS), d) and T.entails(list(T.FACTS), -d))


class NoDim(Undecided):
    pass


def broadcast(arrs):
    """Common shape and aligned expressions."""
    n = max(a.ndim for a in arrs)
    shape = []
    for k in range(n):
        dims = []
        for a in arrs:
            j = k - (n - a.ndim)
            if j >= 0:
                dims.append(a.shape[j])
        big = [d for d in dims if d.const() != 1]
        if not big:
            shape.append(P(1))
            continue
        for d in big[1:]:
            if not same_dim(big[0], d):
                raise NoDim('shapes do not agree: %r against %r' % (big[0], d))
        shape.append(big[0])
    out = []
    for a in arrs:
        sub = {}
        for j in range(a.ndim):
            k = j + n - a.ndim
            if a.shape[j].const() == 1 and shape[k].const() != 1:
                sub['@%d' % j] = P(0)
            else:
                sub['@%d' % j] = D(k)
        out.append(T.subst(a.expr, sub))
    return tuple(shape), out


def dtype_join(*ds):
    order = 'bifc'
    return max(ds, key=order.index)


class Ref:
    """Reference to an array cell; axes describes a view: one entry per axis of the cell,
    ('fix', index) or ('ax', axis of the view, start, step); newaxes are axes of the view without entry."""
    __slots__ = ('cid', 'axes', 'shape')

    def __init__(self, cid, axes=None, shape=None):
        self.cid, self.axes, self.shape = cid, axes, shape

    def __repr__(self):
        return 'Ref(%d)' % self.cid


class ListRef:
    """Reference to a list cell: a tuple of segments ('items', (v, ...)), ('seq', n, varname, value),
    ('filt', n, varname, cond, value), ('ph', name), ('opt', cond, (v, ...))"""
    __slots__ = ('cid',)

    def __init__(self, cid):
        self.cid = cid


class DictRef:
    __slots__ = ('cid',)

    def __init__(self, cid):
        self.cid = cid


class FrozenDict:
    """A dictionary as a value (an item of a list made by a loop)."""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d


class Obj:
    """Reference to an object: its fields are in the heap."""
    __slots__ = ('cls', 'cid')

    def __init__(self, cls, cid):
        self.cls, self.cid = cls, cid

    def __repr__(self):
        return '<%s %d>' % (self.cls, self.cid)


class Seq:
    """Frozen list content."""
    def __init__(self, segs):
        self.segs = segs


class Func:
    def __init__(self, node, module, env=None, cls=None, name=None):
        self.node, self.module, self.env, self.cls = node, module, env, cls
        self.name = name or getattr(node, 'name', '<lambda>')


class Bound:
    def __init__(self, func, obj):
        self.func, self.obj = func, obj


class Ext:
    """A name outside the package, such as numpy.dot"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Ext(%s)' % self.name


class Method:
    """Method of a built-in value."""
    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Opaque:
    """A value about which nothing is known except its name (equal names are equal values)."""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<opaque %s>' % self.name


class Slice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Range:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = P(lo), P(hi), step


class Ptr:
    """C pointer: element off of the block cid (None: the null pointer)."""
    def __init__(self, cid, off):
        self.cid, self.off = cid, P(off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.cid == self.cid and o.off == self.off

    def __hash__(self):
        return hash((self.cid, self.off.key))

    def __repr__(self):
        return 'Ptr(%s, %s)' % (self.cid, self.off.key)


class Undefined:
    def __repr__(self):
        return 'undefined'


UNDEF = Undefined()


class MathMatrix:
    """Helpers on explicit terms (square matrices of constant size as python lists of terms)."""

    @staticmethod
    def of(a, n):
        return [[a.at(i, j) for j in range(n)] for i in range(n)]

    @staticmethod
    def det(m):
        n = len(m)
        if n == 1:
            return m[0][0]
        r = T.ZERO
        for j in range(n):
            r = r + m[0][j] * MathMatrix.det([row[:j] + row[j + 1:] for row in m[1:]]) * (-1) ** j
        return r
