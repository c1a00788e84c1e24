"""Contracts of numpy functions and of methods of built-in values (trusted: they restate the numpy documentation)."""
from fractions import Fraction as F
from dpv.deductive import terms as T
from dpv.deductive.terms import P, Poly, Undecided
from dpv.deductive.values import *
from dpv.deductive import values as V
from dpv.deductive import text

TABLE = {}


def ext(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


# ------------------------------------------------------------------ element-wise functions
def ew(f, dt=None):
    def g(I, x, out=None, dtype=None, **kw):
        if out is not None or kw:
            raise Undecided('ufunc argument')
        a = I.arr(x)
        e = f(a.expr)
        d = dt(a.dtype) if dt else (a.dtype if a.dtype in 'fc' else 'f')
        return I.mk(Arr(a.shape, e, d))
    return g


_fl = lambda d: 'c' if d == 'c' else 'f'
for n, f, d in [('sqrt', T.sqrt, _fl), ('exp', T.exp, _fl), ('conj', T.conj, None), ('conjugate', T.conj, None),
                ('real', T.re, lambda d: 'f' if d == 'c' else d), ('imag', T.im, lambda d: 'f'), ('absolute', T.absolute, lambda d: 'f' if d == 'c' else d),
                ('abs', T.absolute, lambda d: 'f' if d == 'c' else d), ('cos', T.cos, _fl), ('sin', T.sin, _fl),
                ('log', T.log, _fl), ('square', lambda p: p * p, lambda d: d), ('floor', T.floor, _fl), ('rint', T.rnd, _fl),
                ('sinh', lambda p: (T.exp(p) - T.exp(-p)) * T.HALF, _fl), ('cosh', lambda p: (T.exp(p) + T.exp(-p)) * T.HALF, _fl),
                ('tanh', lambda p: (T.exp(p) - T.exp(-p)) / (T.exp(p) + T.exp(-p)), _fl),
                ('expm1', lambda p: T.exp(p) - 1, _fl), ('negative', lambda p: -p, lambda d: d), ('reciprocal', lambda p: T.ONE / p, _fl),
                ('nan_to_num', lambda p: p, lambda d: d), ('asarray', None, None), ('arctan', lambda p: T.fun('atan', p), _fl),
                ('arccos', lambda p: T.fun('acos', p), _fl), ('arcsin', lambda p: T.fun('asin', p), _fl),
                ('ceil', lambda p: -T.floor(-p), _fl), ('log1p', lambda p: T.log(1 + p), _fl),
                ('sign', T.sign, lambda d: d)]:
    if f is None:
        continue
    if n in ('conj', 'conjugate'):
        d = lambda d: d
    TABLE['numpy.' + n] = ew(f, d)
TABLE['math.sqrt'] = TABLE['numpy.sqrt']
TABLE['math.exp'] = TABLE['numpy.exp']
TABLE['math.log'] = TABLE['numpy.log']
TABLE['math.cos'] = TABLE['numpy.cos']
TABLE['math.sin'] = TABLE['numpy.sin']


@ext('math.floor')
def _mfloor(I, x):
    return T.floor(I.num(x))


@ext('math.ceil')
def _mceil(I, x):
    return -T.floor(-I.num(x))


@ext('builtins.abs')
def _abs(I, x):
    return TABLE['numpy.abs'](I, x)


@ext('numpy.round', 'numpy.around', 'numpy.round_', 'builtins.round')
def _round(I, x, decimals=None, ndigits=None):
    d = decimals if decimals is not None else ndigits
    n = 0 if d is None else int(I.num(d).const())
    a = I.arr(x)
    if n == 0:
        return I.mk(Arr(a.shape, T.rnd(a.expr), a.dtype if d is not None or a.ndim else None))
    return I.mk(Arr(a.shape, T.rnd(a.expr * 10 ** n) / 10 ** n if n > 0 else T.rnd(a.expr / 10 ** -n) * 10 ** -n, a.dtype))


def binary(op):
    def g(I, a, b, **kw):
        if kw:
            raise Undecided('ufunc argument')
        A, B = I.arr(a), I.arr(b)
        if A.ndim == 0 and B.ndim == 0:
            return I.binop(op, A.expr, B.expr)
        return I.binop(op, I.mk(A) if A.ndim else A.expr, I.mk(B) if B.ndim else B.expr)
    return g


for n, op in [('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'), ('power', 'Pow'), ('mod', 'Mod'),
              ('floor_divide', 'FloorDiv'), ('remainder', 'Mod')]:
    TABLE['numpy.' + n] = binary(op)


def comparison(op):
    def g(I, a, b):
        A, B = I.arr(a), I.arr(b)
        if A.ndim == 0 and B.ndim == 0:
            return I.compare(op, A.expr, B.expr)
        return I.compare(op, I.mk(A) if A.ndim else A.expr, I.mk(B) if B.ndim else B.expr)
    return g


for n, op in [('equal', 'Eq'), ('not_equal', 'NotEq'), ('greater', 'Gt'), ('greater_equal', 'GtE'), ('less', 'Lt'), ('less_equal', 'LtE')]:
    TABLE['numpy.' + n] = comparison(op)


@ext('builtins.pow', 'math.pow')
def _pow(I, a, b):
    return I.binop('Pow', a, b)


@ext('numpy.minimum', 'numpy.maximum')
def _minmax(I, *a):
    raise Undecided('numpy.minimum')


# ------------------------------------------------------------------ constructors
def shape_of(I, s):
    if isinstance(s, Poly):
        return (s,)
    if isinstance(s, Ref):
        return tuple(I.items(s))
    return tuple(I.num(x) for x in I.items(s))


def dtype_of(I, d, default='f'):
    if d is None:
        return default
    name = d if isinstance(d, str) else (d.name if isinstance(d, (Ext, Opaque)) else None)
    if name is None:
        raise Undecided('dtype')
    name = name.split('.')[-1].split(':')[-1].strip('_')
    if name in ('complex', 'complex128', 'cdouble', 'c', 'D', 'complex_', 'c16'):
        return 'c'
    if name in ('float', 'float64', 'double', 'f', 'd', 'float_', 'f8'):
        return 'f'
    if name in ('int', 'int64', 'int32', 'i', 'int_', 'intc', 'uint', 'int8', 'l'):
        return 'i'
    if name in ('bool', 'bool_', 'b'):
        return 'b'
    raise Undecided('dtype ' + name)


@ext('numpy.zeros')
def _zeros(I, shape, dtype=None, order=None):
    return I.mk0(Arr(shape_of(I, shape), T.ZERO, dtype_of(I, dtype)))


@ext('numpy.ones')
def _ones(I, shape, dtype=None):
    return I.mk0(Arr(shape_of(I, shape), T.ONE, dtype_of(I, dtype)))


@ext('numpy.empty', 'numpy.memmap')
def _empty(I, *a, **kw):
    if set(kw) - {'shape', 'dtype', 'order', 'mode'}:
        raise Undecided('empty')
    shape = kw.get('shape', a[0] if a else None)
    dt = dtype_of(I, kw.get('dtype', a[1] if len(a) > 1 else None))
    s = shape_of(I, shape)
    return I.mk0(Arr(s, T.app('UNDEF#%d' % next(T._fresh), [D(k) for k in range(len(s))], {'f': 'r', 'c': 'c', 'i': 'i', 'b': 'i'}[dt]), dt))


@ext('numpy.full')
def _full(I, shape, v, dtype=None):
    return I.mk0(Arr(shape_of(I, shape), I.num(v), dtype_of(I, dtype, None) if dtype is not None else None))


def like(e):
    def g(I, x, dtype=None):
        a = I.arr(x)
        return I.mk0(Arr(a.shape, T.P(e), dtype_of(I, dtype, a.dtype)))
    return g


TABLE['numpy.zeros_like'] = like(0)
TABLE['numpy.ones_like'] = like(1)


@ext('numpy.empty_like')
def _empty_like(I, x, dtype=None):
    a = I.arr(x)
    dt = dtype_of(I, dtype, a.dtype)
    return I.mk0(Arr(a.shape, T.app('UNDEF#%d' % next(T._fresh), [D(k) for k in range(a.ndim)], {'f': 'r', 'c': 'c', 'i': 'i', 'b': 'i'}[dt]), dt))


@ext('numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.copy', 'numpy.ascontiguousarray')
def _array(I, x, dtype=None, order=None, copy=None, ndmin=None):
    if isinstance(x, Opaque):
        raise Undecided('array of %r' % x)
    if I.texts and dtype is not None and dtype_of(I, dtype) in 'fi':
        x = numbers(I, x, dtype_of(I, dtype))
    a = I.arr(x)
    dt = a.dtype
    if dtype is not None:
        return I.mk0(cast(a, dtype_of(I, dtype)))
    return I.mk0(a)


def numbers(I, x, kind):
    """The texts of a nested list as numbers."""
    if isinstance(x, (str, text.Text)):
        return text.number(I, x, kind)
    if isinstance(x, tuple):
        return tuple(numbers(I, y, kind) for y in x)
    if isinstance(x, (ListRef, Seq)):
        segs = I.heap[x.cid].segs if isinstance(x, ListRef) else x.segs
        out = []
        for s in segs:
            if s[0] == 'items':
                out.append(('items', tuple(numbers(I, y, kind) for y in s[1])))
            elif s[0] == 'seq':
                out.append(('seq', s[1], s[2], I.freeze(numbers(I, s[3], kind))))
            else:
                return x
        return Seq(tuple(out)) if isinstance(x, Seq) else ListRef(I.new(Seq(tuple(out))))
    return x


def cast(a, dt):
    if dt == a.dtype:
        return a
    e = a.expr
    if dt == 'i' and a.dtype in 'fc':
        e = T.P(e)
        if not e.is_int():
            e = trunc(e)
    elif dt == 'f' and a.dtype == 'c':
        e = T.re(e)
    elif dt == 'b':
        e = T.neg(T.bracket_eq(e))
    return Arr(a.shape, e, dt)


def trunc(p):
    c = p.const()
    if c is not None:
        return P(int(c))
    if p.is_int():
        return p
    if T.nonneg(p) or T.entails(list(T.FACTS), p):
        return T.floor(p)
    return T.fun('trunc', p, sort='i')


@ext('numpy.arange')
def _arange(I, *a, **kw):
    names = {'start', 'stop', 'step'}
    if set(kw) - names - {'dtype'} or len(a) > 3:
        raise Undecided('arange')
    v = dict(zip(('start', 'stop', 'step'), a))
    if len(a) == 1 and 'stop' not in kw:
        v = {'stop': a[0]}
    v.update({k: x for k, x in kw.items() if k in names})
    lo, hi, st = [T.ZERO if v.get(k) is None and k == 'start' else (T.ONE if v.get(k) is None and k == 'step' else I.num(v.get(k))) for k in ('start', 'stop', 'step')]
    if lo is None or hi is None or st is None:
        raise Undecided('arange')
    if kw.get('dtype') is not None and (not lo.is_int() or not st.is_int()) and dtype_of(I, kw['dtype']) == 'i':
        raise Undecided('arange of whole numbers')
    n = (hi - lo) / st
    if not n.is_int():
        n = -T.floor(-n)
    return I.mk0(Arr((n,), lo + st * D(0)))


@ext('numpy.linspace')
def _linspace(I, a, b, num=None, endpoint=True, **kw):
    n = I.num(num) if num is not None else P(50)
    if kw:
        raise Undecided('linspace')
    d = n - 1 if endpoint is True else n
    if I.num(a) is None or I.num(b) is None:
        shape, (x, y) = broadcast([I.arr(a), I.arr(b)])
        up = lambda p: T.subst(p, {'@%d' % k: D(k + 1) for k in range(len(shape))})
        return I.mk0(Arr((n,) + tuple(shape), up(x) + D(0) * (up(y) - up(x)) / d, 'f'))
    a, b = I.num(a), I.num(b)
    return I.mk0(Arr((n,), a + D(0) * (b - a) / d, 'f'))


@ext('numpy.identity', 'numpy.eye')
def _eye(I, n, dtype=None):
    n = I.num(n)
    return I.mk0(Arr((n, n), T.bracket_eq(D(0) - D(1)), dtype_of(I, dtype)))


@ext('numpy.diagflat')
def _diagflat(I, x):
    if I.arr(x).ndim != 1:
        raise Undecided('diagflat')
    return _diag(I, x)


@ext('numpy.diag')
def _diag(I, x):
    a = I.arr(x)
    if a.ndim == 1:
        return I.mk0(Arr((a.shape[0], a.shape[0]), T.bracket_eq(D(0) - D(1)) * a.expr, a.dtype))
    return I.mk0(Arr((a.shape[0],), a.at(D(0), D(0)), a.dtype))


# ------------------------------------------------------------------ reductions
def reduce_sum(a, axis):
    q = T.fresh('s')
    e = T.subst(a.expr, {'@%d' % axis: q})
    e = T.subst(e, {'@%d' % k: D(k - 1) for k in range(axis + 1, a.ndim)})
    dt = 'i' if a.dtype == 'b' else a.dtype
    return Arr(a.shape[:axis] + a.shape[axis + 1:], T.sum_range(q, 0, a.shape[axis], e), dt)


def axes_of(I, a, axis):
    if axis is None:
        return list(range(a.ndim))[::-1]
    if isinstance(axis, tuple):
        ax = [int(I.num(x).const()) for x in axis]
    else:
        ax = [int(I.num(axis).const())]
    return sorted([x % a.ndim for x in ax], reverse=True)


@ext('numpy.sum', 'builtins.sum', 'numpy.nansum', 'math.fsum')
def _sum(I, x, axis=None, dtype=None, start=None, keepdims=False):
    if isinstance(x, (ListRef, tuple, Seq)) or not isinstance(x, Ref):
        # lists with filters
        if isinstance(x, ListRef):
            segs = I.heap[x.cid].segs
            if any(s[0] == 'filt' for s in segs):
                tot = T.ZERO
                for s in segs:
                    if s[0] == 'filt':
                        q = T.fresh('s')
                        v = s[4]
                        if not isinstance(v, Poly):
                            raise Undecided('sum of filtered arrays')
                        tot = tot + T.sum_range(q, 0, s[1], T.subst(s[3] * v, {s[2]: q}))
                    elif s[0] == 'seq':
                        q = T.fresh('s')
                        tot = tot + T.sum_range(q, 0, s[1], T.subst(s[3], {s[2]: q}))
                    else:
                        for y in s[1]:
                            tot = tot + I.num(y)
                return tot
    if keepdims is not False:
        raise Undecided('keepdims')
    a = I.arr(x)
    if a.ndim == 0:
        return a.expr
    builtin = axis is None and isinstance(start, int)
    for k in axes_of(I, a, axis):
        a = reduce_sum(a, k)
    return I.mk(a)


def _builtin_sum(I, x, start=None):
    """sum() of python adds along the first axis."""
    if isinstance(x, ListRef) and any(s[0] == 'filt' for s in I.heap[x.cid].segs):
        return _sum(I, x)
    if isinstance(x, EmptyV):
        return T.ZERO
    a = I.arr(x)
    r = I.mk(reduce_sum(a, 0))
    if start is not None:
        r = I.binop('Add', r, start)
    return r


class EmptyV:
    pass


TABLE['builtins.sum'] = _builtin_sum


@ext('numpy.average', 'numpy.mean', 'numpy.nanmean')
def _mean(I, x, axis=None, weights=None, **kw):
    a = I.arr(x)
    if kw.pop('keepdims', False) is not False or kw.pop('dtype', None) is not None and a.dtype != 'f' or kw:
        raise Undecided('mean')
    if weights is not None:
        w = I.arr(weights)
        if axis is None and a.ndim == 1 and w.ndim == 1:
            num = reduce_sum(Arr(a.shape, a.expr * w.expr), 0).expr
            return num / reduce_sum(w, 0).expr
        raise Undecided('weighted average')
    n = T.ONE
    for k in axes_of(I, a, axis):
        n = n * a.shape[k]
        a = reduce_sum(a, k)
    return I.mk(Arr(a.shape, a.expr / n, 'f' if a.dtype in 'bi' else a.dtype))


@ext('numpy.prod', 'numpy.product')
def _prod(I, x, axis=None, dtype=None):
    a = I.arr(x)
    if a.ndim == 0:
        return a.expr
    if a.ndim == 1:
        return prod_of(a)
    if axis is not None and a.ndim == 2:
        k = axes_of(I, a, axis)[0]
        n = a.shape[k].const()
        if n is not None:
            r = T.ONE
            for j in range(int(n)):
                r = r * (a.at(j, D(0)) if k == 0 else a.at(D(0), j))
            return I.mk(Arr((a.shape[1 - k],), r, a.dtype))
    raise Undecided('prod')


def prod_of(a):
    """numpy.prod of a vector, as a term."""
    if a.shape[0].const() is not None:
        r = T.ONE
        for k in range(int(a.shape[0].const())):
            r = r * a.at(k)
        return r
    if a.expr == T.ONE:
        return T.ONE
    return T.fun('prod', a.shape[0], T.subst(a.expr, {'@0': T.var('_l0', 'i')}), sort='i' if a.expr.is_int() else ('r' if a.expr.is_real() else 'c'))


def _extreme(which, sort):
    def g(I, x, axis=None):
        a = I.arr(x)
        if a.ndim == 0 and axis is None:
            return a.expr
        if a.ndim != 1 or axis is not None and I.num(axis) not in (P(0), P(-1)):
            raise Undecided('max/min')
        k = a.shape[0].const()
        if k == 0:
            from dpv.deductive.sym import PyExc
            raise PyExc('ValueError')
        if k is not None and k <= 8:
            vals = [a.at(j) for j in range(int(k))]
            if sort == 'r':
                return TABLE['builtins.' + which](I, *vals) if len(vals) > 1 else vals[0]
            best, at = vals[0], P(0)
            for j, v in enumerate(vals[1:], 1):
                c = T.neg(T.ge(best, v)) if which == 'argmax' else T.neg(T.ge(v, best))
                best, at = T.ite(c, v, best), T.ite(c, P(j), at)
            return at
        return T.fun(which, a.shape[0], a.at(T.var('_l0', 'i', nn=True)), sort=sort, nn=sort == 'i')
    return g


for _n, _s in (('max', 'r'), ('min', 'r'), ('argmax', 'i'), ('argmin', 'i')):
    TABLE['numpy.' + _n] = _extreme(_n, _s)
TABLE['numpy.amax'], TABLE['numpy.amin'] = TABLE['numpy.max'], TABLE['numpy.min']


def _bmax(which):
    def g(I, *a, **kw):
        if kw:
            raise Undecided(which + ' with key')
        if len(a) == 1:
            items = I.items(a[0])
        else:
            items = list(a)
        vals = [I.num(x) for x in items]
        if any(v is None for v in vals):
            raise Undecided(which)
        r = vals[0]
        for v in vals[1:]:
            d = r - v
            if d.const() is not None:
                keep = d.const() >= 0
                r = (r if keep else v) if which == 'max' else (v if keep else r)
            elif T.entails(list(T.FACTS), d):
                r = r if which == 'max' else v
            elif T.entails(list(T.FACTS), -d):
                r = v if which == 'max' else r
            else:
                c = T.bracket_ge(d)
                r = T.ite(c, r, v) if which == 'max' else T.ite(c, v, r)
        return r
    return g


TABLE['builtins.max'] = _bmax('max')
TABLE['builtins.min'] = _bmax('min')


@ext('numpy.any', 'builtins.any')
def _any(I, x, axis=None):
    if isinstance(x, ListRef) and not I.heap[x.cid].segs:
        return False
    if isinstance(x, (Bool, bool)):
        return x
    x = truths(I, x)
    a = I.arr(x)
    r = T.ONE
    for k in axes_of(I, a, axis):
        n = a.shape[k].const()
        if axis is not None and a.ndim > 1:
            raise Undecided('any along an axis')
        if n is None or a.ndim != 1:
            return mkbool(T.ONE - T.bracket_eq(_count(a, False)))
        for j in range(int(n)):
            r = r * (T.ONE - T.P(a.at(j)) if a.dtype == 'b' else T.bracket_eq(a.at(j)))
    return mkbool(T.ONE - r)


@ext('numpy.all', 'builtins.all')
def _all(I, x, axis=None):
    if isinstance(x, (Bool, bool)):
        return x
    x = truths(I, x)
    a = I.arr(x)
    r = T.ONE
    if a.ndim == 1 and a.shape[0].const() is not None:
        for j in range(int(a.shape[0].const())):
            r = r * (a.at(j) if a.dtype == 'b' else T.neg(T.bracket_eq(a.at(j))))
        return mkbool(r)
    if axis is not None and a.ndim > 1:
        raise Undecided('all along an axis')
    return mkbool(T.bracket_eq(_count(a, True)))


def truths(I, x):
    """A short list of conditions as an array of them."""
    if isinstance(x, (ListRef, tuple)):
        try:
            items = I.items(x)
        except Undecided:
            return x
        if any(isinstance(v, (Bool, bool)) for v in items):
            e = T.ZERO
            for j, v in enumerate(items):
                e = e + T.bracket_eq(D(0) - j) * (v.p if isinstance(v, Bool) else P(v) if isinstance(v, bool) else I.cond(v))
            return I.mk(Arr((len(items),), e, 'b'))
    return x


def _count(a, false):
    """How many elements are true (false)."""
    e = a.expr if a.dtype == 'b' else T.neg(T.bracket_eq(a.expr))
    e = T.ONE - e if false else e
    x = Arr(a.shape, e, 'i')
    while x.ndim:
        x = reduce_sum(x, 0)
    return x.expr


# ------------------------------------------------------------------ linear algebra
def dot_arr(a, b):
    if a.ndim == 0 or b.ndim == 0:
        A, B = a, b
        shape, (p, q) = broadcast([A, B])
        return Arr(shape, p * q, dtype_join(a.dtype, b.dtype))
    q = T.fresh('s')
    na, nb = a.ndim, b.ndim
    if not same_dim(a.shape[-1], b.shape[0] if nb == 1 else b.shape[-2]):
        raise NoDim('dot of %r and %r' % (a.shape, b.shape))
    ea = T.subst(a.expr, {'@%d' % (na - 1): q})
    sub = {}
    shape = a.shape[:-1]
    if nb == 1:
        eb = T.subst(b.expr, {'@0': q})
    else:
        k = na - 1
        for j in range(nb):
            if j == nb - 2:
                sub['@%d' % j] = q
            else:
                sub['@%d' % j] = D(k)
                k += 1
        eb = T.subst(b.expr, sub)
        shape = shape + b.shape[:-2] + b.shape[-1:]
    return Arr(shape, T.sum_range(q, 0, a.shape[-1], ea * eb), dtype_join(a.dtype, b.dtype) if 'b' not in (a.dtype, b.dtype) else 'i')


@ext('numpy.dot')
def _dot(I, a, b):
    return I.mk(dot_arr(I.arr(a), I.arr(b)))


@ext('numpy.matmul')
def _matmul(I, a, b):
    a, b = I.arr(a), I.arr(b)
    if a.ndim > 2 or b.ndim > 2:
        raise Undecided('stacked matmul')
    return I.mk(dot_arr(a, b))


@ext('numpy.inner')
def _inner(I, a, b):
    a, b = I.arr(a), I.arr(b)
    if a.ndim == 1 and b.ndim == 1:
        return I.mk(dot_arr(a, b))
    if b.ndim == 2:
        return I.mk(dot_arr(a, Arr(b.shape[::-1], b.at(D(1), D(0)), b.dtype)))
    raise Undecided('inner')


@ext('numpy.vdot')
def _vdot(I, a, b):
    a, b = I.arr(a), I.arr(b)
    if a.ndim == 1 and b.ndim == 1:
        return I.mk(dot_arr(Arr(a.shape, T.conj(a.expr), a.dtype), b))
    raise Undecided('vdot')


@ext('numpy.outer')
def _outer(I, a, b):
    a, b = I.arr(a), I.arr(b)
    if a.ndim != 1 or b.ndim != 1:
        raise Undecided('outer')
    return I.mk(Arr((a.shape[0], b.shape[0]), a.expr * b.at(D(1)), dtype_join(a.dtype, b.dtype)))


@ext('numpy.cross')
def _cross(I, a, b):
    a, b = I.arr(a), I.arr(b)
    if a.ndim != 1 or b.ndim != 1:
        raise Undecided('cross')
    c = [a.at(1) * b.at(2) - a.at(2) * b.at(1), a.at(2) * b.at(0) - a.at(0) * b.at(2), a.at(0) * b.at(1) - a.at(1) * b.at(0)]
    e = T.ZERO
    for k, x in enumerate(c):
        e = e + T.bracket_eq(D(0) - k) * x
    return I.mk(Arr((3,), e, 'f'))


@ext('numpy.trace')
def _trace(I, a):
    a = I.arr(a)
    q = T.fresh('s')
    return T.sum_range(q, 0, a.shape[0], a.at(q, q))


@ext('numpy.einsum')
def _einsum(I, spec, *ops):
    if not isinstance(spec, str) or '.' in spec or '->' not in spec:
        raise Undecided('einsum')
    ins, out = spec.replace(' ', '').split('->')
    ins = ins.split(',')
    vs, dims = {}, {}
    e = T.ONE
    dt = 'i'
    for s, o in zip(ins, ops):
        a = I.arr(o)
        ix = []
        for j, ch in enumerate(s):
            if ch not in vs:
                vs[ch] = T.fresh('s')
                dims[ch] = a.shape[j]
            elif not same_dim(dims[ch], a.shape[j]):
                raise NoDim('einsum')
            ix.append(vs[ch])
        e = e * a.at(*ix)
        dt = dtype_join(dt, a.dtype)
    for ch in vs:
        if ch not in out:
            e = T.sum_range(vs[ch], 0, dims[ch], e)
    e = T.subst(e, {T.var_name(vs[ch]): D(k) for k, ch in enumerate(out)})
    return I.mk(Arr([dims[c] for c in out], e, dt))


def matrix_fun(name, a, sort='r'):
    """inv and det of a matrix given by its element term, inv canonical under transposition."""
    l0, l1 = T.var('_l0', 'i', nn=True), T.var('_l1', 'i', nn=True)
    b = a.at(l0, l1)
    bt = a.at(l1, l0)
    k = a.shape[0].const()
    if k is not None and k <= 3 and any(y.kind == 'iv' for mono in b.m for y, e in mono):
        # a small matrix written with brackets: element by element, one form whatever the brackets were
        k = int(k)
        el = [[a.at(i, j) for j in range(k)] for i in range(k)]
        w = lambda x, i: T.bracket_eq(x - i)
        b = sum((w(l0, i) * w(l1, j) * el[i][j] for i in range(k) for j in range(k)), T.ZERO)
        bt = sum((w(l0, i) * w(l1, j) * el[j][i] for i in range(k) for j in range(k)), T.ZERO)
    return b, bt


@ext('numpy.linalg.inv')
def _inv(I, x):
    a = I.arr(x)
    if a.ndim != 2:
        raise Undecided('inv of a stack')
    return I.mk(inv_arr(a))


def inv_arr(a):
    b, bt = matrix_fun('inv', a)
    n = a.shape[0]
    k = n.const()
    if k is not None and k <= 4:
        k = int(k)
        if all(a.at(i, j) == T.ZERO for i in range(k) for j in range(k) if i != j):
            # diagonal
            return Arr(a.shape, sum((T.bracket_eq(D(0) - i) * T.bracket_eq(D(1) - i) * T.power(a.at(i, i), F(-1)) for i in range(k)), T.ZERO),
                       a.dtype if a.dtype == 'c' else 'f')
    # numeric factors leave the inverse
    f = T.ONE
    srt = 'c' if a.dtype == 'c' else 'r'
    if len(b.m) == 1:
        (mono, c), = b.m.items()
        out = tuple((y, e) for y, e in mono if '_l0' not in y.free and '_l1' not in y.free)
        ins = tuple((y, e) for y, e in mono if '_l0' in y.free or '_l1' in y.free)
        f = T.power(Poly({out: c}), F(-1))
        b = Poly({ins: F(1)})
        bt = T.subst(b, {'_l0': T.var('_l1', 'i', nn=True), '_l1': T.var('_l0', 'i', nn=True)})
        # inverse of an inverse
        if len(ins) == 1 and ins[0][1] == 1 and ins[0][0].kind == 'fun' and ins[0][0].data[0] == 'inv':
            i0, j0, n0, body = ins[0][0].data[1]
            names = {'_l0': i0.key, '_l1': j0.key}
    if bt.key < b.key:
        e = T.fun('inv', D(1), D(0), n, bt, sort=srt)
    else:
        e = T.fun('inv', D(0), D(1), n, b, sort=srt)
    return Arr(a.shape, f * e, a.dtype if a.dtype == 'c' else 'f')


@ext('numpy.linalg.det')
def _det(I, x):
    a = I.arr(x)
    if a.ndim == 2 and a.shape[0].const() is not None and a.shape[0].const() <= 3:
        return MathMatrix.det(MathMatrix.of(a, int(a.shape[0].const())))
    b, bt = matrix_fun('det', a)
    return T.fun('det', a.shape[0], b if b.key <= bt.key else bt)


@ext('numpy.linalg.norm')
def _norm(I, x, axis=None, ord=None):
    a = I.arr(x)
    if ord is not None:
        raise Undecided('norm order')
    e = T.re(a.expr * T.conj(a.expr)) if a.dtype == 'c' else a.expr * a.expr
    s = Arr(a.shape, e, 'f')
    for k in axes_of(I, s, axis):
        s = reduce_sum(s, k)
    return I.mk(Arr(s.shape, T.sqrt(s.expr), 'f'))


# ------------------------------------------------------------------ shapes
@ext('numpy.transpose')
def _transpose(I, x, axes=None):
    a = I.arr(x)
    if axes is None:
        return I.mk(Arr(a.shape[::-1], a.at(*[D(a.ndim - 1 - k) for k in range(a.ndim)]), a.dtype))
    p = [int(I.num(t).const()) for t in I.items(axes)]
    ix = [None] * a.ndim
    for k, j in enumerate(p):
        ix[j] = D(k)
    return I.mk(Arr([a.shape[j] for j in p], a.at(*ix), a.dtype))


@ext('numpy.swapaxes')
def _swapaxes(I, x, i, j):
    a = I.arr(x)
    i, j = int(I.num(i).const()) % a.ndim, int(I.num(j).const()) % a.ndim
    p = list(range(a.ndim))
    p[i], p[j] = p[j], p[i]
    return I.mk(Arr([a.shape[k] for k in p], a.at(*[D(p[k]) for k in range(a.ndim)]), a.dtype))


@ext('numpy.concatenate')
def _concat(I, xs, axis=None):
    parts = [I.arr(x) for x in I.items(xs)]
    ax = int(I.num(axis).const()) if axis is not None else 0
    return I.mk(concat(parts, ax))


def concat(parts, ax=0):
    off = T.ZERO
    expr = T.ZERO
    for k, p in enumerate(parts):
        c = T.ONE
        if k > 0:
            c = c * T.bracket_ge(D(ax) - off)
        if k < len(parts) - 1:
            c = c * T.bracket_ge(off + p.shape[ax] - 1 - D(ax))
        expr = expr + c * T.subst(p.expr, {'@%d' % ax: D(ax) - off})
        off = off + p.shape[ax]
    sh = list(parts[0].shape)
    sh[ax] = off
    return Arr(sh, expr, dtype_join(*[p.dtype for p in parts]))


@ext('numpy.append')
def _append(I, a, b, axis=None):
    A, B = I.arr(a), I.arr(b)
    if axis is None:
        if A.ndim > 1 or B.ndim > 1:
            raise Undecided('append of matrices')
        if A.ndim == 0:
            A = Arr((1,), A.expr, A.dtype)
        if B.ndim == 0:
            B = Arr((1,), B.expr, B.dtype)
        return I.mk(concat([A, B]))
    return I.mk(concat([A, B], int(I.num(axis).const())))


@ext('numpy.vstack')
def _vstack(I, xs):
    parts = [I.arr(x) for x in I.items(xs)]
    parts = [p if p.ndim > 1 else Arr((1,) + p.shape, p.at(D(1)), p.dtype) for p in parts]
    return I.mk(concat(parts))


@ext('numpy.squeeze')
def _squeeze(I, x):
    a = I.arr(x)
    keep = [k for k in range(a.ndim) if a.shape[k].const() != 1]
    ix = [D(keep.index(k)) if k in keep else T.ZERO for k in range(a.ndim)]
    return I.mk(Arr([a.shape[k] for k in keep], a.at(*ix), a.dtype))


@ext('numpy.expand_dims')
def _expand(I, x, axis):
    a = I.arr(x)
    k = int(I.num(axis).const()) % (a.ndim + 1)
    ix = [D(j if j < k else j + 1) for j in range(a.ndim)]
    return I.mk(Arr(a.shape[:k] + (P(1),) + a.shape[k:], a.at(*ix), a.dtype))


def reshape(I, a, shape):
    """Row-major reshape where dimensions can be matched one by one (ones inserted or removed) or flattened/split."""
    shape = list(shape)
    neg = [k for k, s in enumerate(shape) if s.const() == -1]
    total = T.ONE
    for s in a.shape:
        total = total * s
    if neg:
        rest = T.ONE
        for k, s in enumerate(shape):
            if k not in neg:
                rest = rest * s
        shape[neg[0]] = total / rest
    # equal dimensions at the beginning and the end stay
    head = 0
    while head < min(len(shape), a.ndim) - 1 and same_dim(shape[head], a.shape[head]):
        head += 1
    tail = 0
    while tail < min(len(shape), a.ndim) - head - 1 and same_dim(shape[-1 - tail], a.shape[-1 - tail]):
        tail += 1
    if head or tail:
        na, nb = a.ndim - head - tail, len(shape) - head - tail
        mid = Arr(a.shape[head:head + na], T.subst(a.expr, {'@%d' % k: (T.var('_h%d' % k, 'i', nn=True) if k < head else
                                                                       T.var('_t%d' % (k - head - na), 'i', nn=True) if k >= head + na else D(k - head))
                                                           for k in range(a.ndim)}), a.dtype)
        r = reshape(I, mid, shape[head:head + nb])
        e = T.subst(r.expr, {'@%d' % k: D(k + head) for k in range(nb)})
        e = T.subst(e, dict([('_h%d' % k, D(k)) for k in range(head)] + [('_t%d' % k, D(head + nb + k)) for k in range(tail)]))
        return Arr(shape, e, a.dtype)
    # flat index of the new position
    flat = T.ZERO
    for k, s in enumerate(shape):
        flat = flat * s + D(k)
    tot2 = T.ONE
    for s in shape:
        tot2 = tot2 * s
    if not (tot2 - total) == T.ZERO:
        if (tot2 - total).const() is not None:
            from dpv.deductive.sym import PyExc
            raise PyExc('ValueError')
        raise Undecided('reshape sizes')
    # matching of dimensions other than one
    old = [k for k in range(a.ndim) if a.shape[k].const() != 1]
    new = [k for k in range(len(shape)) if shape[k].const() != 1]
    if len(old) == len(new) and all(same_dim(a.shape[i], shape[j]) for i, j in zip(old, new)):
        ix = [D(new[old.index(k)]) if k in old else T.ZERO for k in range(a.ndim)]
        return Arr(shape, a.at(*ix), a.dtype)
    if len(old) == 1:
        ix = [flat if k in old else T.ZERO for k in range(a.ndim)]
        return Arr(shape, a.at(*ix), a.dtype)
    # general: positions from the flat index by division
    ix = []
    rem = flat
    for k in range(a.ndim):
        size = T.ONE
        for s in a.shape[k + 1:]:
            size = size * s
        q = T.floor(rem / size) if size.const() != 1 else rem
        ix.append(q)
        rem = rem - q * size
    return Arr(shape, a.at(*ix), a.dtype)


@ext('numpy.reshape')
def _reshape(I, x, shape, order='C'):
    if order != 'C':
        return method(I, I.mk(I.arr(x)), 'reshape', [shape], {'order': order})
    a = I.arr(x)
    return I.mk(reshape(I, a, shape_of(I, shape)))


@ext('numpy.gradient')
def _gradient(I, f, *sp, **kw):
    a = I.arr(f)
    if a.ndim != 1 or len(sp) > 1 or kw:
        raise Undecided('gradient')
    h = I.num(sp[0]) if sp else T.ONE
    if h is None:
        raise Undecided('gradient with coordinates')
    n = a.shape[0]
    i = D(0)
    mid = (a.at(i + 1) - a.at(i - 1)) / (2 * h)
    first = (a.at(1) - a.at(0)) / h
    last = (a.at(n - 1) - a.at(n - 2)) / h
    e = T.bracket_eq(i) * first + T.bracket_eq(i - (n - 1)) * last + (T.ONE - T.bracket_eq(i) - T.bracket_eq(i - (n - 1))) * mid
    return I.mk(Arr(a.shape, e, a.dtype if a.dtype == 'c' else 'f'))


@ext('numpy.unique', 'numpy.sort', 'builtins.sorted', 'builtins.set', 'numpy.where', 'numpy.nonzero')
def _refuse(I, *a, **kw):
    raise Undecided('call without a contract')


@ext('numpy.trapz', 'numpy.trapezoid', 'scipy.integrate.trapezoid')
def _trapz(I, y, x=None, dx=None, **kw):
    if set(kw) - {'axis'} or 'axis' in kw and I.num(kw['axis']) not in (P(0), P(-1)):
        raise Undecided('quadrature')
    return integral(I, 'trapz', y, x, dx)


@ext('scipy.integrate.simps', 'scipy.integrate.simpson')
def _simps(I, y, x=None, dx=None, **kw):
    if set(kw) - {'axis'} or 'axis' in kw and I.num(kw['axis']) not in (P(0), P(-1)):
        raise Undecided('quadrature')
    return integral(I, 'simps', y, x, dx)


def integral(I, name, y, x, dx):
    """Quadrature of the sampled function: linear in y."""
    a = I.arr(y)
    if a.ndim != 1:
        raise Undecided('quadrature of a matrix')
    l0 = T.var('_l0', 'i', nn=True)
    if x is not None:
        xe = I.arr(x).at(l0)
    else:
        xe = l0 * (I.num(dx) if dx is not None else T.ONE)
    return quadrature(name, a.at(l0), xe, a.shape[0])


def quadrature(name, ye, xe, n):
    r = T.ZERO
    for mono, c in ye.m.items():
        out = tuple((y, e) for y, e in mono if '_l0' not in y.free)
        ins = tuple((y, e) for y, e in mono if '_l0' in y.free)
        body = Poly({ins: F(1)})
        r = r + Poly({out: c}) * T.fun(name, n, xe, body, sort='r' if body.is_real() else 'c')
    return r


@ext('numpy.interp')
def _interp(I, x, xp, fp, left=None, right=None, period=None):
    if left is not None or right is not None or period is not None:
        raise Undecided('interp options')
    l0 = T.var('_l0', 'i', nn=True)
    X, XP, FP = I.arr(x), I.arr(xp), I.arr(fp)
    n = XP.shape[0]
    r = T.ZERO
    for mono, c in FP.at(l0).m.items():
        out = tuple((y, e) for y, e in mono if '_l0' not in y.free)
        ins = tuple((y, e) for y, e in mono if '_l0' in y.free)
        r = r + Poly({out: c}) * T.fun('interp', X.expr, n, XP.at(l0), Poly({ins: F(1)}))
    return I.mk(Arr(X.shape, r, 'f'))


@ext('numpy.correlate')
def _correlate(I, a, v, mode='valid'):
    x, y = I.arr(a), I.arr(v)
    if x.ndim != 1 or y.ndim != 1 or not same_dim(x.shape[0], y.shape[0]):
        raise Undecided('correlate of different lengths')
    n = x.shape[0]
    if mode == 'same':
        first, m = n - T.floordiv(n, P(2)) - 1, n
    elif mode == 'full':
        first, m = T.ZERO, 2 * n - 1
    elif mode == 'valid':
        first, m = n - 1, T.ONE
    else:
        raise Undecided('correlate mode')
    j = T.fresh('j')
    lag = D(0) + first - (n - 1)
    e = T.sigma([j], [j, n - 1 - j, j + lag, n - 1 - j - lag], x.at(j + lag) * T.conj(y.at(j)))
    return I.mk(Arr((m,), e, dtype_join(x.dtype, y.dtype)))


@ext('numpy.fft.fft', 'pyfftw.interfaces.numpy_fft.fft')
def _fft(I, x, n=None, threads=None):
    a = I.arr(x)
    if a.ndim != 1 or n is not None:
        raise Undecided('fft')
    k = T.fresh('k')
    n = a.shape[0]
    return I.mk(Arr((n,), T.sum_range(k, 0, n, a.at(k) * T.exp(-2 * T.PI * T.I * k * D(0) / n)), 'c'))


@ext('multiprocessing.cpu_count', 'os.cpu_count')
def _cpus(I):
    return T.var('cpus', 'i', nn=True)


@ext('numpy.fft.fftfreq')
def _fftfreq(I, n, d=None):
    n = I.num(n)
    d = T.ONE if d is None else I.num(d)
    return I.mk(Arr((n,), T.ite(T.ge(2 * D(0), n), D(0) - n, D(0)) / (n * d), 'f'))


@ext('numpy.argwhere')
def _argwhere(I, x):
    a = I.arr(x)
    if a.ndim != 1:
        raise Undecided('argwhere of a matrix')
    c = a.expr if a.dtype == 'b' else T.neg(T.bracket_eq(a.expr))
    c = T.subst(c, {'@0': T.var('_l1', 'i', nn=True)})
    return I.mk0(Arr((T.nth_count(a.shape[0], c), P(1)), T.nth(D(0), a.shape[0], c), 'i'))


@ext('numpy.flatnonzero')
def _flatnonzero(I, x):
    a = I.content(_argwhere(I, x))
    return I.mk0(Arr(a.shape[:1], a.expr, 'i'))


@ext('numpy.argsort')
def _argsort(I, x):
    a = I.arr(x)
    if a.ndim != 1:
        raise Undecided('argsort of a matrix')
    return I.mk(Arr((a.shape[0],), T.fun('argsort', D(0), a.shape[0], a.at(T.var('_l1', 'i', nn=True)), sort='i', nn=True), 'i'))


# ------------------------------------------------------------------ built-ins
@ext('builtins.range')
def _range(I, *a):
    a = [I.num(x) for x in a]
    if any(x is None for x in a):
        raise Undecided('range')
    if len(a) == 1:
        return Range(0, a[0])
    if len(a) == 2:
        return Range(a[0], a[1])
    c = a[2].const()
    return Range(a[0], a[1], int(c) if c is not None else a[2])


@ext('builtins.len')
def _len(I, x):
    return I.length(x)


@ext('builtins.print', 'sys.stdout.write', 'sys.stdout.flush', 'warnings.warn', 'warnings.simplefilter')
def _print(I, *a, **kw):
    return None


@ext('builtins.exit', 'sys.exit', 'builtins.quit')
def _exit(I, *a):
    from dpv.deductive.sym import Exit
    raise Exit()


@ext('builtins.zip')
def _zip(I, *a):
    from dpv.deductive.sym import ZipV
    return ZipV(a)


@ext('itertools.product')
def _product(I, *parts, repeat=1):
    if repeat != 1:
        raise Undecided('itertools.product')
    from dpv.deductive.sym import ProductV
    return ProductV(parts)


@ext('builtins.enumerate')
def _enum(I, a, start=None):
    from dpv.deductive.sym import EnumV
    return EnumV(a, I.num(start) if start is not None else P(0))


@ext('builtins.reversed')
def _reversed(I, a):
    if isinstance(a, (ListRef, tuple)):
        return tuple(reversed(I.items(a)))
    if isinstance(a, Range) and a.step == 1:
        return Range(a.hi - 1, a.lo - 1, -1)
    raise Undecided('reversed')


@ext('builtins.list', 'builtins.tuple')
def _list(I, a=None):
    if a is None:
        return I.new_list([])
    if isinstance(a, tuple):
        return I.new_list(a)
    s = I.seq_of(a)
    return ListRef(I.new(s))


def _tuple(I, a=()):
    if isinstance(a, tuple):
        return a
    return tuple(I.items(a))


TABLE['builtins.tuple'] = _tuple


@ext('builtins.float', 'numpy.float64', 'builtins.complex')
def _float(I, x=None):
    if I.texts and isinstance(x, (str, text.Text)):
        return text.number(I, x)
    v = I.num(x)
    if v is None:
        if isinstance(x, Ref):
            return I.subscript(x, tuple(P(0) for _ in I.content(x).shape))
        raise Undecided('float of %r' % (x,))
    return v


@ext('builtins.int', 'numpy.int64')
def _int(I, x=None):
    if I.texts and isinstance(x, (str, text.Text)):
        return text.number(I, x, 'i')
    v = I.num(x)
    if v is None:
        raise Undecided('int of %r' % (x,))
    return trunc(v)


@ext('builtins.bool')
def _bool(I, x=None):
    c = I.cond(x)
    return c if isinstance(c, bool) else mkbool(c)


@ext('builtins.str', 'builtins.repr', 'builtins.format')
def _str(I, *a):
    if I.texts and 1 <= len(a) <= 2:
        return text.plain(text.of(I, *a))
    if a and isinstance(a[0], str):
        return a[0]
    if len(a) == 1 and whole(a[0]) is not None:
        return str(whole(a[0]))
    return Opaque('text')


def whole(x):
    """The int of a constant whole number or the text itself, otherwise None."""
    if isinstance(x, str):
        return x
    if isinstance(x, bool) or not isinstance(x, (int, Poly)):
        return None
    c = P(x).const()
    return int(c) if c is not None and c.denominator == 1 else None


@ext('builtins.isinstance')
def _isinstance(I, x, cls):
    names = [c.name.split('.')[-1] for c in (cls if isinstance(cls, tuple) else (cls,)) if isinstance(c, Ext)]
    kinds = {'list': ListRef, 'tuple': tuple, 'str': str, 'dict': DictRef, 'ndarray': Ref}
    for n in names:
        if n in kinds and isinstance(x, kinds[n]):
            return True
        if n in ('int', 'float', 'complex') and isinstance(x, Poly):
            if n == 'int' and x.is_int() or n == 'float' and not x.is_int() and x.is_real() or n == 'complex' and not x.is_real():
                return True
    if any(n not in kinds and n not in ('int', 'float', 'complex', 'bool', 'NoneType') for n in names):
        raise Undecided('isinstance')
    return False


@ext('builtins.hasattr')
def _hasattr(I, o, name):
    from dpv.deductive.sym import PyExc
    try:
        I.getattr(o, name)
        return True
    except PyExc:
        return False


@ext('builtins.getattr')
def _getattr(I, o, name, *default):
    from dpv.deductive.sym import PyExc
    try:
        return I.getattr(o, name)
    except PyExc:
        if default:
            return default[0]
        raise


@ext('builtins.setattr')
def _setattr(I, o, name, v):
    if not isinstance(name, str):
        raise Undecided('setattr')
    I.setattr(o, name, v)


@ext('builtins.vars')
def _vars(I, o):
    return I.getattr(o, '__dict__')


@ext('builtins.dict')
def _dict(I, *a, **kw):
    d = {}
    if a:
        if not isinstance(a[0], DictRef):
            raise Undecided('dict')
        d.update({k: v for k, v in I.heap[a[0].cid].items()})
    d.update(kw)
    return DictRef(I.new(d))


@ext('builtins.map')
def _map(I, f, xs):
    n, g = I.iterator(xs)
    if isinstance(n, int):
        return I.new_list([I.call(f, [g(k)], {}) for k in range(n)])
    r = I.new_list([])
    box = {}
    I.loop(n, lambda i: box.__setitem__('i', i), lambda: I.append(r, I.call(f, [g(box['i'])], {})))
    return r


@ext('builtins.slice')
def _slice(I, *a):
    if len(a) == 1:
        return Slice(None, a[0], None)
    return Slice(a[0], a[1], a[2] if len(a) > 2 else None)


@ext('copy.copy')
def _copy(I, x):
    if isinstance(x, Ref):
        return I.mk(I.content(x))
    if isinstance(x, ListRef):
        return ListRef(I.new(I.heap[x.cid]))
    if isinstance(x, DictRef):
        return DictRef(I.new(dict(I.heap[x.cid])))
    if isinstance(x, Obj):
        ci = I.class_info(x.cls)
        if ci is None or ci.node.bases and ci.bases != ['object'] or any(m in ci.methods for m in ('__copy__', '__reduce__', '__reduce_ex__', '__getstate__', '__setstate__', '__new__')):
            raise Undecided('copy of %r' % (x,))
        return I.new_obj(x.cls, I.heap[x.cid])
    if isinstance(x, (Poly, str, bool, type(None), tuple)):
        return x
    raise Undecided('copy of %r' % (x,))


@ext('copy.deepcopy')
def _deepcopy(I, x):
    if isinstance(x, Ref):
        return I.mk(I.content(x))
    if isinstance(x, tuple):
        return tuple(_deepcopy(I, y) for y in x)
    if isinstance(x, ListRef):
        return I.new_list([_deepcopy(I, y) for y in I.items(x)])
    if isinstance(x, DictRef):
        return DictRef(I.new({k: _deepcopy(I, v) for k, v in I.heap[x.cid].items()}))
    if isinstance(x, (Poly, str, bool, type(None))):
        return x
    raise Undecided('copy of %r' % (x,))


@ext('builtins.type')
def _type(I, x):
    return Opaque('type')


@ext('numpy.errstate')
def _errstate(I, **kw):
    return Opaque('errstate')


@ext('warnings.catch_warnings')
def _catch(I, **kw):
    return Opaque('catch_warnings')


@ext('os.getpid')
def _pid(I):
    return Opaque('pid')


# ------------------------------------------------------------------ methods
def method(I, recv, name, args, kw):
    k = None
    if isinstance(recv, Opaque):
        key = 'opaque:%s.%s' % (recv.name, name)
        if key in I.contracts:
            I.calls.append(key)
            return I.contracts[key](I, recv, *args, **kw)
        raise Undecided('method %s of %r' % (name, recv))
    if isinstance(recv, (Bool, bool)) and name in ('any', 'all'):
        return recv
    if isinstance(recv, Poly):
        if name == 'tolist' and not args and not kw:
            return recv
        if name in ('conj', 'conjugate'):
            return T.conj(recv)
        if name == 'round':
            return _round(I, recv, *args, **kw)
        if name == 'astype':
            return cast(Arr((), recv), dtype_of(I, args[0])).expr
        if name in ('copy', 'item', 'sum'):
            return recv
        raise Undecided('method ' + name)
    if isinstance(recv, Ref):
        order = kw.pop('order', 'C') if name in ('reshape', 'flatten', 'ravel', 'copy', 'astype') else 'C'
        if name in ('copy', 'astype'):
            order = 'C'     # the layout in memory is not observed
        if name == 'astype':
            kw.pop('copy', None)
            if 'dtype' in kw:
                args, kw = [kw.pop('dtype')], kw
        if name == 'reshape' and order in ('F', 'C') and 'shape' in kw:
            args = [kw.pop('shape')]
        if order not in ('C', 'F'):
            raise Undecided('order %r' % (order,))
        if kw and name not in ('sum', 'mean', 'dot', 'prod', 'round', 'any', 'all', 'trace', 'squeeze', 'swapaxes'):
            raise Undecided('arguments of the array method ' + name)
        if name in ('flatten', 'ravel') and args:
            order = args[0] if args[0] in ('C', 'F') else Undecided
        if order == 'F' and name in ('reshape', 'flatten', 'ravel'):
            # column-major: the row-major reshape of the reversed array to the reversed shape, reversed
            a = I.content(I.transpose(recv))
            sh = (P(-1),) if name != 'reshape' else shape_of(I, args[0] if len(args) == 1 else tuple(args))
            return I.transpose(I.mk(reshape(I, a, tuple(reversed(sh)))))
        if order != 'C':
            raise Undecided('order')
        if name == 'copy':
            return I.mk(I.content(recv))
        if name in ('conj', 'conjugate', 'sum', 'mean', 'dot', 'prod', 'round', 'any', 'all', 'trace', 'squeeze', 'swapaxes'):
            return TABLE['numpy.' + name](I, recv, *args, **kw)
        if name == 'transpose':
            if not args:
                return I.transpose(recv)
            if len(args) > 1:
                args = [tuple(args)]
            return _transpose(I, recv, *args)
        if name == 'reshape':
            sh = args[0] if len(args) == 1 else tuple(args)
            return I.mk(reshape(I, I.content(recv), shape_of(I, sh)))
        if name in ('flatten', 'ravel'):
            return I.mk(reshape(I, I.content(recv), (P(-1),)))
        if name == 'astype':
            return I.mk(cast(I.content(recv), dtype_of(I, args[0])))
        if name == 'tolist':
            return ListRef(I.new(_tolist(I, I.content(recv))))
        if name == 'fill':
            I.store(recv, (), args[0])
            return None
        raise Undecided('array method ' + name)
    if isinstance(recv, ListRef):
        if name == 'append':
            I.append(recv, args[0])
            return None
        if name == 'extend':
            I.heap[recv.cid] = Seq(I.heap[recv.cid].segs + I.seq_of(args[0]).segs)
            return None
        if name == 'copy':
            return ListRef(I.new(I.heap[recv.cid]))
        if name == 'count':
            n, f = I.iterator(recv)
            if isinstance(n, int):
                r = T.ZERO
                for j in range(n):
                    r = r + P(I.compare('Eq', f(j), args[0]))
                return r
            q = T.fresh('s')
            return T.sum_range(q, 0, n, P(I.compare('Eq', f(q), args[0])))
        if name == 'index':
            items = I.items(recv)
            for j, x in enumerate(items):
                if I.compare('Eq', x, args[0]) is True:
                    return P(j)
            raise Undecided('index')
        if name == 'pop':
            segs = I.heap[recv.cid].segs
            if len(segs) == 1 and segs[0][0] == 'items':
                it = list(segs[0][1])
                v = it.pop(int(I.num(args[0]).const()) if args else -1)
                I.heap[recv.cid] = Seq((('items', tuple(it)),)) if it else Seq(())
                return v
        if name == 'insert':
            segs = I.heap[recv.cid].segs
            if not segs or len(segs) == 1 and segs[0][0] == 'items':
                it = list(segs[0][1]) if segs else []
                it.insert(int(I.num(args[0]).const()), args[1])
                I.heap[recv.cid] = Seq((('items', tuple(it)),))
                return None
        raise Undecided('list method ' + name)
    if isinstance(recv, DictRef):
        d = {k: v for k, v in I.heap[recv.cid].items() if not (isinstance(k, str) and k.startswith('$'))}
        if name == 'setdefault' and isinstance(args[0], str):
            if args[0] not in d:
                I.heap[recv.cid] = dict(I.heap[recv.cid], **{args[0]: args[1] if len(args) > 1 else None})
            return I.heap[recv.cid][args[0]]
        if name == 'copy':
            return DictRef(I.new(dict(I.heap[recv.cid])))
        if name == 'keys':
            return tuple(d)
        if name == 'values':
            return tuple(d.values())
        if name == 'items':
            return tuple((a, b) for a, b in d.items())
        if name == 'get':
            from dpv.deductive.sym import dict_key
            return d.get(dict_key(args[0]), args[1] if len(args) > 1 else None)
        if name == 'update':
            e = dict(d)
            if args:
                e.update(I.heap[args[0].cid])
            e.update(kw)
            I.heap[recv.cid] = e
            return None
        raise Undecided('dict method ' + name)
    if isinstance(recv, text.Text):
        return text.method(I, recv, name, args, kw)
    if isinstance(recv, str) and I.texts and name == 'format':
        return text.formatted(I, recv, args, kw)
    if isinstance(recv, str) and I.texts and name in ('encode', 'decode') and len(args) < 2:
        return recv
    if isinstance(recv, str) and I.texts and name == 'join':
        return text.join(I, recv, args[0])
    if isinstance(recv, str):
        if name == 'format' and 'str.format' in I.contracts:
            return I.contracts['str.format'](I, recv, *args, **kw)
        if name == 'format' and not kw and args:
            # whole numbers and texts in plain places
            v = [whole(a) for a in args]
            if None not in v:
                try:
                    return recv.format(*v)
                except (ValueError, IndexError, KeyError):
                    raise PyExc('ValueError')
        if name in ('format', 'join'):
            return Opaque('text')
        if all(isinstance(a, str) for a in args):
            try:
                r = getattr(recv, name)(*args)
            except AttributeError:
                raise Undecided('str method')
            if isinstance(r, int) and not isinstance(r, bool):
                return P(r)
            return I.new_list(r) if isinstance(r, list) else r
        raise Undecided('str method ' + name)
    if isinstance(recv, tuple) and name == 'count':
        r = T.ZERO
        for x in recv:
            r = r + P(I.compare('Eq', x, args[0]))
        return r
    raise Undecided('method %s' % name)


def _tolist(I, a):
    n = a.shape[0].const()
    sub = lambda k: Arr(a.shape[1:], T.subst(T.subst(a.expr, {'@0': P(k)}), {'@%d' % (j + 1): D(j) for j in range(a.ndim - 1)}), a.dtype)
    if a.ndim == 1:
        f = lambda k: a.at(k)
    else:
        f = lambda k: sub(k)
    if n is not None:
        return Seq((('items', tuple(I.thaw(f(k)) for k in range(int(n)))),))
    q = T.fresh('q')
    return Seq((('seq', a.shape[0], T.var_name(q), f(q)),))


def mask_select(I, o, ix, k, b):
    raise Undecided('boolean mask')


def store_advanced(I, o, ix, v, op, rhs):
    """Store through one index array without repeated entries cannot be told from one with: refused, except boolean masks
    over the whole array."""
    if len(ix) == 1:
        b = I.arr(ix[0])
        cell = I.heap[o.cid]
        if b.dtype == 'b' and o.axes is None and b.ndim == cell.ndim:
            val = I.arr(v if op is None else rhs)
            if val.ndim == 0:
                from dpv.deductive.sym import scalar_op
                new = val.expr if op is None else scalar_op(op, cell.expr, val.expr)
                I.heap[o.cid] = Arr(cell.shape, T.ite(b.expr, new, cell.expr), cell.dtype)
                return
    raise Undecided('store through an index array')
