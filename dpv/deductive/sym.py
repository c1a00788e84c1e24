"""Symbolic interpreter: the meaning of a Python function of the package as terms, for all inputs.

Statements are executed once on symbolic values.  Branches on undecided conditions are explored separately and merged.
A loop over a symbolic range is executed once for an arbitrary iteration with every modified location replaced by a
placeholder; the effect of all iterations follows by induction when the body adds to a location (a sum), writes distinct
places of an array, appends to a list or overwrites.  Any other loop is refused (Undecided) unless its contract gives an
invariant.  Callees with a contract are replaced by it, other functions of the package are executed in place."""
import ast, itertools
from fractions import Fraction as F
from dpv.deductive import terms as T, smt
from dpv.deductive.terms import P, Poly, Undecided
from dpv.deductive.values import *
from dpv.deductive import values as V
from dpv.deductive import npfun, text


class PyExc(Exception):
    def __init__(self, kind, msg=''):
        Exception.__init__(self, kind, msg)
        self.kind = kind


class Exit(Exception):
    pass


class Return(Exception):
    def __init__(self, value):
        self.value = value


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Infeasible(Exception):
    pass


class Decisions:
    def __init__(self, prefix):
        self.prefix, self.pos, self.alternatives, self.taken = prefix, 0, [], []


class Outcome:
    def __init__(self, kind, value, state, conds):
        self.kind, self.value, self.state, self.conds = kind, value, state, conds

    @property
    def cond(self):
        r = T.ONE
        for c in self.conds:
            r = r * c
        return r


NONE_NAME = 'None'      # None as an item of an array
EXC_PARENTS = {'KeyError': ('LookupError', 'Exception'), 'IndexError': ('LookupError', 'Exception'), 'AttributeError': ('Exception',),
               'ValueError': ('Exception',), 'TypeError': ('Exception',), 'ImportError': ('Exception',), 'RuntimeError': ('Exception',)}


def dict_key(k):
    """Numbers as keys are fractions."""
    if isinstance(k, int) and not isinstance(k, bool):
        return F(k)
    if isinstance(k, Poly) and k.const() is not None:
        return k.const()
    return k


# context managers that do not change values
TRANSPARENT = ('errstate', 'catch_warnings')


class Interp:
    def __init__(self, source, contracts=None, limits=4000):
        self.src = source
        self.contracts = contracts or {}
        self.env = {}
        self.heap = {}
        self.path = ()
        self.dstack = []
        self.cids = itertools.count(1)
        self.depth = 0
        self.calls = []            # contracts used
        self.inlined = set()
        self.module_stack = []
        self.ghost = {}            # things contracts record (in the state)
        self.class_stack = []
        self.loop_index = None
        self.vcs = []
        self.last_loop = None
        self.pinned = set()
        self.before = None         # what happens before the function under contract is called
        self.texts = 'text' in self.contracts      # texts with printed numbers are followed
        self.elementwise, self.retries = False, 0
        self.cuts = {}             # length of a loop -> where it may be taken apart
        self.seq_facts = {}        # variable of a list made by a contract -> what the contract says of its items (>= 0)

    # ------------------------------------------------------------------ state
    def save(self):
        return (dict(self.env), dict(self.heap), self.path, len(T.FACTS), list(T.FACTS), dict(self.ghost))

    def restore(self, s):
        self.env, self.heap, self.path = dict(s[0]), dict(s[1]), s[2]
        T.FACTS[:] = s[4]
        self.ghost = dict(s[5])

    def assume(self, c):
        """Adds a condition (indicator term) to the path."""
        k = c.const()
        if k is not None:
            if k == 0:
                raise Infeasible()
            return
        self.path = self.path + (c,)
        if len(c.m) == 1:
            (mono, co), = c.m.items()
            if co == 1:
                for a, e in mono:
                    if a.kind == 'iv' and a.data[0] == 'ge':
                        T.FACTS.append(a.data[1])
                    elif a.kind == 'iv' and a.data[0] == 'eq':
                        T.FACTS.append(a.data[1])
                        T.FACTS.append(-a.data[1])
        n = T.ONE - c                       # negation of a single bracket
        if len(n.m) == 1:
            (mono, co), = n.m.items()
            if co == 1 and len(mono) == 1 and mono[0][0].kind == 'iv' and mono[0][0].data[0] == 'ge':
                T.FACTS.append(-mono[0][0].data[1])

    def known(self, c):
        """True/False when the path decides the condition, else None."""
        k = c.const()
        if k is not None:
            return bool(k)
        for q in self.path:
            if q == c:
                return True
            if q == T.neg(c) or (q + c) == T.ONE:
                return False
        r, _ = smt.prove(list(T.FACTS), self.path, c)
        if r:
            return True
        r, _ = smt.prove(list(T.FACTS), self.path, T.neg(c))
        if r:
            return False
        return None

    def decide(self, c):
        """Branches on the condition c."""
        k = self.known(c)
        if k is not None:
            return k
        if not self.dstack:
            raise Undecided('condition outside exploration')
        d = self.dstack[-1]
        if d.pos < len(d.prefix):
            v = d.prefix[d.pos]
        else:
            v = True
            d.alternatives.append(d.taken + [False])
        d.taken = d.taken + [v]
        d.pos += 1
        if len(d.taken) > 12:
            raise Undecided('too many paths')
        self.assume(c if v else T.neg(c))
        return v

    def explore(self, thunk):
        base = self.save()
        npath = len(self.path)
        pending = [[]]
        outs = []
        while pending:
            prefix = pending.pop()
            self.restore(base)
            d = Decisions(prefix)
            self.dstack.append(d)
            kind, value = 'next', None
            try:
                value = thunk()
            except Return as e:
                kind, value = 'return', e.value
            except Break:
                kind = 'break'
            except Continue:
                kind = 'continue'
            except PyExc as e:
                kind, value = 'raise', e
            except Exit:
                kind = 'exit'
            except Infeasible:
                kind = None
            finally:
                self.dstack.pop()
            pending.extend(d.alternatives)
            if kind is not None:
                outs.append(Outcome(kind, value, self.save(), self.path[npath:]))
            if len(outs) > 64:
                raise Undecided('too many paths')
        self.restore(base)
        return outs

    # ------------------------------------------------------------------ heap
    def new(self, content):
        c = next(self.cids)
        self.heap[c] = content
        return c

    def mk(self, a):
        """Array reference (or the scalar for rank 0)."""
        if a.ndim == 0:
            return a.expr
        return Ref(self.new(a))

    def mk0(self, a):
        return self.mk(a)

    def content(self, r):
        cell = self.heap[r.cid]
        if r.axes is None:
            return cell
        sub = {}
        for j, ax in enumerate(r.axes):
            if ax[0] == 'fix':
                sub['@%d' % j] = ax[1]
            else:
                sub['@%d' % j] = ax[2] + D(ax[1]) * ax[3]
        return Arr(r.shape, T.subst(cell.expr, sub), cell.dtype)

    def new_list(self, items):
        return ListRef(self.new(Seq((('items', tuple(items)),) if items else ())))

    def new_obj(self, cls, fields):
        return Obj(cls, self.new(dict(fields)))

    def field(self, o, name):
        return self.heap[o.cid][name]

    def set_field(self, o, name, v):
        d = dict(self.heap[o.cid])
        d[name] = v
        self.heap[o.cid] = d

    def freeze(self, v):
        if isinstance(v, Ref):
            return self.content(v)
        if isinstance(v, ListRef):
            return Seq(tuple(self._freeze_seg(s) for s in self.heap[v.cid].segs))
        if isinstance(v, tuple):
            return tuple(self.freeze(x) for x in v)
        if isinstance(v, DictRef) and all(isinstance(k, str) for k in self.heap[v.cid]):
            return FrozenDict({k: self.freeze(x) for k, x in self.heap[v.cid].items()})
        return v

    def _freeze_seg(self, s):
        if s[0] in ('items',):
            return ('items', tuple(self.freeze(x) for x in s[1]))
        if s[0] == 'opt':
            return ('opt', s[1], tuple(self.freeze(x) for x in s[2]))
        return s

    def thaw(self, v):
        if isinstance(v, Arr):
            return self.mk(v)
        if isinstance(v, Seq):
            return ListRef(self.new(v))
        if isinstance(v, tuple):
            return tuple(self.thaw(x) for x in v)
        if isinstance(v, FrozenDict):
            return DictRef(self.new({k: self.thaw(x) for k, x in v.d.items()}))
        return v

    def vkey(self, v):
        """Text that determines a value."""
        if isinstance(v, Poly):
            return v.key
        if isinstance(v, Arr):
            return v.key()
        if isinstance(v, Ref):
            return 'R' + self.content(v).key()
        if isinstance(v, ListRef):
            return 'L' + self.vkey(self.heap[v.cid])
        if isinstance(v, Seq):
            return 'Seq(%s)' % ', '.join(self._segkey(s) for s in v.segs)
        if isinstance(v, (tuple, list)):
            return '(%s)' % ','.join(self.vkey(x) for x in v)
        if isinstance(v, Bool):
            return 'B' + v.p.key
        if isinstance(v, Obj):
            return '<%s %d>' % (v.cls, v.cid)
        if isinstance(v, text.Text):
            return v.key()
        if isinstance(v, DictRef):
            return 'D' + self.vkey(self.heap[v.cid])
        if isinstance(v, FrozenDict):
            return 'D' + self.vkey(v.d)
        if isinstance(v, dict):
            return '{%s}' % ','.join('%r:%s' % (k, self.vkey(x)) for k, x in sorted(v.items(), key=lambda t: repr(t[0])))
        if isinstance(v, Func):
            return 'F%d' % id(v.node)
        if isinstance(v, Bound):
            return 'M%s%s' % (self.vkey(v.func), self.vkey(v.obj))
        return repr(v)

    def _segkey(self, s):
        if s[0] == 'items':
            return 'items' + self.vkey(s[1])
        if s[0] == 'opt':
            return 'opt' + s[1].key + self.vkey(s[2])
        if s[0] == 'seq':
            return 'seq(%s,%s)' % (s[1].key, self.vkey(subst_value(s[3], {s[2]: T.var('_q', 'i')})))
        if s[0] == 'filt':
            q = {s[2]: T.var('_q', 'i')}
            return 'filt(%s,%s,%s)' % (s[1].key, T.subst(s[3], q).key, self.vkey(subst_value(s[4], q)))
        return repr(s)

    # ------------------------------------------------------------------ merging
    def merge(self, outs, base):
        try:
            return self._merge(outs, base)
        except KeyError as e:
            raise Undecided('objects made in one branch only: %s' % e)

    def _merge(self, outs, base):
        """One state from outcomes with exclusive and exhaustive conditions; raises Undecided when impossible.
        Returns the merged outcome values as well."""
        if len(outs) == 1:
            self.restore(outs[0].state)
            # the path of the single outcome is kept: other paths are infeasible
            return outs[0].value
        conds = [o.cond for o in outs]
        env, heap = {}, dict(base[1])
        names = set()
        for o in outs:
            names |= set(o.state[0])
        cids = set()
        for o in outs:
            cids |= set(o.state[1])
        # cells first
        moved = {}
        for cid in cids:
            vals = [o.state[1].get(cid) for o in outs]
            have = [v for v in vals if v is not None]
            if len(have) == 1 and len(vals) > 1:
                heap[cid] = have[0]
                continue
            if all(v is have[0] for v in have):
                heap[cid] = have[0]
                continue
            if any(v is None for v in vals):
                heap[cid] = have[0]       # created in several branches: contents belong to different objects
                moved[cid] = True
                continue
            heap[cid] = self._merge_content(conds, vals, outs)
        self.restore(base)
        self.heap = heap
        ghost = dict(base[5])
        for o in outs:
            for k, v in o.state[5].items():
                if k in ghost and ghost[k] != v:
                    raise Undecided('ghost state differs between branches')
                ghost[k] = v
        self.ghost = ghost
        for nm in names:
            vals = [o.state[0].get(nm, UNDEF) for o in outs]
            if any(v is UNDEF for v in vals):
                env[nm] = UNDEF
                continue
            env[nm] = self._merge_value(conds, vals, outs, soft=True)
        self.env = env
        if any(o.value is not None for o in outs):
            vals = [o.value for o in outs]
            return self._merge_value(conds, vals, outs)
        return None

    def _frozen_in(self, v, o):
        cur = self.heap
        self.heap = o.state[1]
        try:
            return self.freeze(v)
        finally:
            self.heap = cur

    def _merge_value(self, conds, vals, outs, soft=False):
        v0 = vals[0]
        try:
            if all(type(v) is type(v0) for v in vals):
                if isinstance(v0, (Ref, ListRef, Obj, DictRef)):
                    if all(v is v0 or (v.cid == v0.cid and getattr(v, 'axes', None) is None and getattr(v0, 'axes', None) is None) for v in vals):
                        return v0
                if isinstance(v0, (Ref, ListRef)):
                    fz = [self._frozen_in(v, o) for v, o in zip(vals, outs)]
                    return self.thaw(self._merge_content(conds, fz, outs))
                if isinstance(v0, tuple) and all(len(v) == len(v0) for v in vals):
                    return tuple(self._merge_value(conds, [v[k] for v in vals], outs) for k in range(len(v0)))
                if isinstance(v0, (Func, Bound, Ext, Method, Slice, Range)) and all(self.vkey(v) == self.vkey(v0) for v in vals):
                    return v0
                if isinstance(v0, Opaque) and all(v.name == v0.name for v in vals):
                    return v0
                if not isinstance(v0, (Poly, Bool, bool)) and all(v == v0 for v in vals):
                    return v0
            if all(isinstance(v, (Poly, bool, Bool)) for v in vals):
                if all(isinstance(v, (bool, Bool)) for v in vals):
                    ps = [v.p if isinstance(v, Bool) else P(v) for v in vals]
                    return mkbool(self._ite(conds, ps))
                ps = [v.p if isinstance(v, Bool) else P(v) for v in vals]
                return self._ite(conds, ps)
        except Undecided:
            if not soft:
                raise
        if soft:
            return UNDEF if any(self.vkey(v) != self.vkey(v0) for v in vals) else v0
        raise Undecided('branches give values that cannot be merged')

    def _ite(self, conds, ps):
        acc = ps[-1]
        for c, p in list(zip(conds, ps))[-2::-1]:
            acc = T.ite(c, p, acc)
        return acc

    def _merge_content(self, conds, vals, outs):
        v0 = vals[0]
        if all(isinstance(v, Arr) for v in vals):
            if any(v.ndim != v0.ndim or not all(same_dim(a, b) for a, b in zip(v.shape, v0.shape)) for v in vals):
                raise Undecided('branches give arrays of different shapes')
            return Arr(v0.shape, self._ite(conds, [v.expr for v in vals]), dtype_join(*[v.dtype for v in vals]))
        if all(isinstance(v, dict) for v in vals):
            r = {}
            keys = set().union(*vals)
            for k in keys:
                if any(k not in v for v in vals):
                    raise Undecided('field %s set in one branch only' % k)
                vs = [v[k] for v in vals]
                if all(x is vs[0] for x in vs):
                    r[k] = vs[0]
                else:
                    r[k] = self._merge_value(conds, vs, outs)
            return r
        if all(isinstance(v, Seq) for v in vals):
            if all(self.vkey(v) == self.vkey(v0) for v in vals):
                return v0
            # same number of items everywhere
            if all(len(v.segs) == 1 and v.segs[0][0] == 'items' and len(v.segs[0][1]) == len(v0.segs[0][1]) for v in vals):
                return Seq((('items', tuple(self._merge_value(conds, [v.segs[0][1][k] for v in vals], outs) for k in range(len(v0.segs[0][1])))),))
            # common prefix and one appended item in some branches
            n = min(len(v.segs) for v in vals)
            pre = 0
            while pre < n and all(self._segkey(v.segs[pre]) == self._segkey(v0.segs[pre]) for v in vals):
                pre += 1
            tails = [v.segs[pre:] for v in vals]
            if all(len(t) <= 1 and (not t or t[0][0] == 'items' and len(t[0][1]) == 1) for t in tails):
                cs = T.ZERO
                item = None
                sel = [(c, t[0][1][0], o) for c, t, o in zip(conds, tails, outs) if t]
                for c, t, o in sel:
                    cs = cs + c
                item = sel[0][1] if len(sel) == 1 else self._merge_value([c for c, t, o in sel], [t for c, t, o in sel], [o for c, t, o in sel])
                if len(sel) == len(vals):
                    return Seq(v0.segs[:pre] + (('items', (item,)),))
                return Seq(v0.segs[:pre] + (('opt', cs, (item,)),))
        raise Undecided('branches give contents that cannot be merged')

    # ------------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Undecided('statement %s (line %d)' % (type(s).__name__, s.lineno))
        return m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            self.env[a.asname or a.name.split('.')[0]] = self.ext(a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, s):
        for a in s.names:
            self.env[a.asname or a.name] = self.ext('%s.%s' % (s.module, a.name))

    def s_Return(self, s):
        raise Return(self.eval(s.value) if s.value is not None else None)

    def s_Break(self, s):
        raise Break()

    def s_Continue(self, s):
        raise Continue()

    def s_Raise(self, s):
        kind = 'Exception'
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            if isinstance(e, ast.Name):
                kind = e.id
        raise PyExc(kind)

    def s_Global(self, s):
        raise Undecided('global statement')

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.env.pop(t.id, None)
            else:
                raise Undecided('del of an element')

    def s_Assert(self, s):
        c = self.truth(self.eval(s.test))
        if not c:
            raise PyExc('AssertionError')

    def s_FunctionDef(self, s):
        self.env[s.name] = Func(s, self.module_stack[-1], env=self.env)

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.items(v, len(t.elts))
            for x, y in zip(t.elts, items):
                self.assign(x, y)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.store(self.eval(t.value), self.index(t.slice), v)
        else:
            raise Undecided('assignment target')

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            k = 'set:%s.%s' % (o.cls, name)
            if k in self.contracts:
                return self.contracts[k](self, o, v)
            ci = self.class_info(o.cls)
            if ci is not None and name in ci.setters:
                return self.call(Func(ci.setters[name], ci.module, cls=o.cls), [o, v], {})
            return self.set_field(o, name, v)
        raise Undecided('attribute of %r assigned' % (o,))

    def s_AugAssign(self, s):
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            old = self.eval(ast.Name(id=s.target.id, ctx=ast.Load()))
            v = self.eval(s.value)
            self.env[s.target.id] = self.augmented(op, old, v)
        elif isinstance(s.target, ast.Attribute):
            o = self.eval(s.target.value)
            old = self.getattr(o, s.target.attr)
            v = self.eval(s.value)
            self.setattr(o, s.target.attr, self.augmented(op, old, v))
        elif isinstance(s.target, ast.Subscript):
            base = self.eval(s.target.value)
            ix = self.index(s.target.slice)
            v = self.eval(s.value)
            if isinstance(base, Ref):
                view = self.subscript(base, ix)
                if isinstance(view, Ref) and view.cid != base.cid:
                    raise Undecided('augmented assignment through an index array')
                self.store(base, ix, None, op=op, rhs=v)
            else:
                old = self.subscript(base, ix)
                self.store(base, ix, self.augmented(op, old, v))
        else:
            raise Undecided('augmented assignment target')

    def augmented(self, op, old, v):
        if isinstance(old, Ref):
            self.store(old, (), None, op=op, rhs=v)       # in place
            return old
        if isinstance(old, ListRef) and op == 'Add':
            self.heap[old.cid] = Seq(self.heap[old.cid].segs + self.seq_of(v).segs)
            return old
        return self.binop(op, old, v)

    def s_If(self, s):
        c = self.cond(self.eval(s.test))
        if isinstance(c, bool):
            return self.block(s.body if c else s.orelse)
        k = self.known(c)
        if k is not None:
            return self.block(s.body if k else s.orelse)
        # try to merge both branches
        base = self.save()
        ok = None
        try:
            outs = []
            for cc, body in ((c, s.body), (T.neg(c), s.orelse)):
                self.restore(base)
                try:
                    self.assume(cc)
                except Infeasible:
                    continue
                sub = self.explore(lambda: self.block(body))
                for o in sub:
                    o.conds = (cc,) + tuple(o.conds)
                outs += sub
            if all(o.kind == 'next' for o in outs):
                self.merge(outs, base)
                ok = self.save()
        except Undecided:
            ok = None
        if ok is not None:
            self.restore((ok[0], ok[1], base[2] if len(outs) > 1 else ok[2], 0, base[4] if len(outs) > 1 else ok[4], ok[5]))
            return
        self.restore(base)
        if self.decide(c):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def s_With(self, s):
        managers = []
        for it in s.items:
            m = self.eval(it.context_expr)
            if isinstance(m, Opaque) and m.name in TRANSPARENT:
                v = m
            elif isinstance(m, Obj):
                v = self.call(self.getattr(m, '__enter__'), [], {})
                managers.append(m)
            else:
                raise Undecided('with statement on %r' % (m,))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)

        def leave():
            for m in reversed(managers):
                if self.call(self.getattr(m, '__exit__'), [None, None, None], {}) not in (None, False):
                    raise Undecided('a context that swallows exceptions')
        try:
            self.block(s.body)
        except (Return, Break, Continue, PyExc):
            leave()
            raise
        leave()

    def s_Try(self, s):
        try:
            self._try(s)
        except (Return, Break, Continue, PyExc):
            self.block(s.finalbody)
            raise
        self.block(s.finalbody)

    def _try(self, s):
        base = self.save()
        try:
            self.block(s.body)
        except PyExc as e:
            for h in s.handlers:
                names = []
                if h.type is None:
                    names = [e.kind]
                elif isinstance(h.type, ast.Name):
                    names = [h.type.id]
                elif isinstance(h.type, ast.Tuple):
                    names = [x.id for x in h.type.elts if isinstance(x, ast.Name)]
                if e.kind in names or any(x in names for x in EXC_PARENTS.get(e.kind, ('Exception',))):
                    if h.name:
                        self.env[h.name] = Opaque('exception')
                    self.block(h.body)
                    break
            else:
                raise
        else:
            self.block(s.orelse)

    def counted(self, s):
        """while i < n: B; i += 1  as  for i in range(i, n): B  when B does not change i or n; None otherwise."""
        t, last = s.test, s.body[-1]
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and len(s.body) > 1 and not s.orelse):
            return None
        left, right, op = t.left, t.comparators[0], type(t.ops[0])
        if op in (ast.Gt, ast.GtE):
            left, right, op = right, left, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[op]
        if not isinstance(left, ast.Name) or op not in (ast.Lt, ast.LtE):
            return None
        i = left.id
        step = isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == i and \
            isinstance(last.value, ast.Constant) and type(last.value.value) is int and last.value.value == 1
        if not step and isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == i:
            step = ast.unparse(last.value) in ('%s + 1' % i, '1 + %s' % i)
        body = s.body[:-1]
        if not step:
            return None
        inside = [x for b in body for x in ast.walk(b)]
        if any(isinstance(x, (ast.Continue, ast.Break, ast.Return)) for x in inside):
            return None
        changed = {x.id for x in inside if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)}
        used = {x.id for x in ast.walk(right) if isinstance(x, ast.Name)}
        # the bound is made of names that keep their values, and of attributes, items and lengths of arrays
        if i in changed | used or used & changed:
            return None
        lo, hi = self.num(self.lookup(i)), self.num(self.eval(right))
        if lo is None or hi is None or not lo.is_int() or not hi.is_int():
            return None
        grown = {x.func.value.id for x in inside if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name)
                 and x.func.attr in ('append', 'extend', 'insert', 'pop', 'remove', 'clear')}
        if grown & used:
            return None
        return i, lo, hi if op is ast.Lt else hi + 1, right, body

    def s_While(self, s):
        w = self.counted(s)
        if w is not None and (w[2] - w[1]).const() is None:
            i, lo, hi, right, body = w
            self.env['$lo'], self.env['$hi'] = lo, hi
            loop = ast.For(ast.Name(i, ast.Store()), ast.Call(ast.Name('range', ast.Load()), [ast.Name('$lo', ast.Load()), ast.Name('$hi', ast.Load())], []), body, [])
            ast.copy_location(loop, s)
            ast.fix_missing_locations(loop)
            self.stmt(loop)
            now = self.num(self.eval(right))
            if now is None or now != (hi if isinstance(s.test.ops[0], (ast.Lt, ast.Gt)) else hi - 1):
                raise Undecided('while loop that changes its bound (line %d)' % s.lineno)
            self.env[i] = hi if T.entails(list(T.FACTS), hi - lo) else T.ite(T.ge(hi - lo, 0), hi, lo)
            self.env.pop('$lo', None), self.env.pop('$hi', None)
            return
        n = 0
        while True:
            c = self.cond(self.eval(s.test))
            if not isinstance(c, bool):
                k = self.known(c)
                if k is None:
                    raise Undecided('while loop on an undecided condition (line %d)' % s.lineno)
                c = k
            if not c:
                self.block(s.orelse)
                return
            n += 1
            if n > 40:
                raise Undecided('long while loop')
            try:
                self.block(s.body)
            except Break:
                return
            except Continue:
                pass

    # ------------------------------------------------------------------ iteration
    def iterator(self, it):
        """(length, function index -> value) of an iterable; length an int when concrete items are given."""
        if isinstance(it, Range):
            n = it.hi - it.lo
            st = it.step
            if st == 1:
                c = n.const()
                if c is not None:
                    return max(int(c), 0), (lambda k: it.lo + k)
                if not T.entails(list(T.FACTS), n):
                    n = T.ite(T.ge(n, 0), n, 0)
                return n, (lambda k: it.lo + k)
            c = n.const()
            if c is not None and isinstance(st, int):
                return len(range(0, int(c), st)), (lambda k: it.lo + k * st)
            if isinstance(st, int) and st == -1:
                return -n, (lambda k: it.lo - k)
            # ceil(n/step) for positive steps
            if isinstance(st, int) and st > 0 or isinstance(st, Poly):
                stp = P(st)
                m = T.floor((n + stp - 1) / stp)
                if not T.entails(list(T.FACTS), m):
                    raise Undecided('range that may be empty')
                return m, (lambda k: it.lo + k * stp)
            raise Undecided('range step')
        if isinstance(it, tuple):
            return len(it), (lambda k: it[k])
        if isinstance(it, Ref):
            a = self.content(it)
            n = a.shape[0].const()
            n = int(n) if n is not None else a.shape[0]
            return n, (lambda k: self.subscript(it, (P(k),)))
        if isinstance(it, ListRef):
            segs = self.heap[it.cid].segs
            if not segs:
                return 0, None
            if len(segs) == 1 and segs[0][0] == 'items':
                return len(segs[0][1]), (lambda k: segs[0][1][k])
            if len(segs) == 1 and segs[0][0] == 'seq':
                known = self.seq_facts.get(segs[0][2], ())

                def item(k):
                    for c in known:                  # postconditions of the contract that made the list
                        T.FACTS.append(T.subst(c, {segs[0][2]: P(k)}))
                    return self.thaw(subst_value(segs[0][3], {segs[0][2]: P(k)}))
                return segs[0][1], item
            if len(segs) == 1 and segs[0][0] == 'filt':
                return ('filt', segs[0]), None
            spans = self.spans(segs)
            total = spans[-1][1]
            if total.const() is not None:
                return int(total.const()), (lambda k: self.composite(segs, P(k)))
            self.cuts.setdefault(total.key, [lo for lo, hi, s in spans])
            return total, (lambda k: self.composite(segs, P(k)))
        if isinstance(it, Obj) and str(it.cls) + '.__iter__' in self.contracts:
            return self.iterator(self.contracts[it.cls + '.__iter__'](self, it))
        if isinstance(it, ZipV):
            ns, fs = zip(*[self.iterator(x) for x in it.parts])
            n = ns[0]
            conc = [x for x in ns if isinstance(x, int)]
            if conc and len(conc) == len(ns):
                n = min(ns)
            else:
                for x in ns[1:]:
                    if not same_dim(n, x):
                        raise Undecided('zip of different lengths')
                if conc:
                    n = conc[0]
            return n, (lambda k: tuple(f(k) for f in fs))
        if isinstance(it, ProductV):
            ns, fs = zip(*[self.iterator(x) for x in it.parts])
            total = T.ONE
            for x in ns:
                total = total * P(x)
            if total.const() is not None:
                total = int(total.const())

            def item(k):
                # the last part runs fastest
                out, k = [], P(k)
                for x, f in reversed(list(zip(ns, fs))):
                    c = T.floordiv(k, P(x))
                    j = k - P(x) * c
                    out.append(f(int(j.const()) if j.const() is not None else j))
                    k = c
                return tuple(reversed(out))
            return total, item
        if isinstance(it, EnumV):
            n, f = self.iterator(it.part)
            return n, (lambda k: (P(k) + it.start, f(k)))
        if isinstance(it, DictRef):
            d = self.heap[it.cid]
            ks = [k for k in d if not (isinstance(k, str) and k.startswith('$'))]
            return len(ks), (lambda k: ks[k])
        if isinstance(it, str):
            return len(it), (lambda k: it[k])
        raise Undecided('iteration over %r' % (it,))

    def s_For(self, s):
        it = self.eval(s.iter)
        n, f = self.iterator(it)
        if isinstance(n, tuple):
            raise Undecided('loop over a filtered list')
        if not isinstance(n, int) and n.const() is not None:
            n = int(n.const())
        if isinstance(n, int):
            broke = False
            for k in range(n):
                self.assign(s.target, f(k))
                try:
                    self.block(s.body)
                except Break:
                    broke = True
                    break
                except Continue:
                    continue
            if not broke:
                self.block(s.orelse)
            return
        if s.orelse:
            raise Undecided('for-else')
        self.loop(n, lambda i: self.assign(s.target, f(i)), lambda: self.block(s.body), s)

    # locations changed by a loop body
    def _locs(self, before, after_env, after_heap):
        """Locations whose value differs from the state before."""
        env0, heap0 = before
        locs = []
        for nm, v in after_env.items():
            v0 = env0.get(nm, UNDEF)
            if v is v0:
                continue
            if v0 is UNDEF:
                locs.append(('env', nm))
                continue
            if type(v) is type(v0) and not isinstance(v, (Ref, ListRef)) and self.vkey(v) == self.vkey(v0):
                continue
            if isinstance(v, (Ref, ListRef, DictRef)) and type(v) is type(v0) and v.cid == v0.cid:
                continue
            locs.append(('env', nm))
        for cid, c in after_heap.items():
            if cid not in heap0:
                continue
            c0 = heap0[cid]
            if c is c0:
                continue
            if isinstance(c, dict):
                for k in c:
                    if k not in c0 or c[k] is not c0[k] and not (isinstance(c[k], Poly) and isinstance(c0[k], Poly) and c[k] == c0[k]) \
                            and not (isinstance(c[k], (Ref, ListRef)) and type(c[k]) is type(c0[k]) and c[k].cid == c0[k].cid and c[k].axes is None if isinstance(c[k], Ref) else
                                     isinstance(c[k], ListRef) and isinstance(c0[k], ListRef) and c[k].cid == c0[k].cid):
                        if k in c0 and self.vkey_safe(c[k]) == self.vkey_safe(c0[k]) and not isinstance(c[k], (Ref, ListRef)):
                            continue
                        locs.append(('field', cid, k))
            elif isinstance(c, (Arr, Seq)):
                if self.vkey(c) != self.vkey(c0):
                    locs.append(('cell', cid))
            else:
                raise Undecided('loop modifies %r' % (c,))
        return locs

    def vkey_safe(self, v):
        try:
            return self.vkey(v)
        except KeyError:
            return repr(v)

    def _get(self, loc, env, heap):
        if loc[0] == 'env':
            return env.get(loc[1], UNDEF)
        if loc[0] == 'cell':
            return heap[loc[1]]
        return heap[loc[1]].get(loc[2], UNDEF)

    def _put(self, loc, v):
        if loc[0] == 'env':
            if v is UNDEF:
                self.env.pop(loc[1], None)
            else:
                self.env[loc[1]] = v
        elif loc[0] == 'cell':
            self.heap[loc[1]] = v
        else:
            d = dict(self.heap[loc[1]])
            d[loc[2]] = v
            self.heap[loc[1]] = d

    def loop(self, n, bind, run, node=None):
        """for i in range(n): bind(i); run() ."""
        for candidate in getattr(self, 'loop_invariants', ()):
            inv = candidate(self, n)
            if inv is not None:
                saved, start = list(T.FACTS), self.save()
                try:
                    inv(bind, run)
                    T.FACTS[:] = saved
                    return
                except Undecided as e:
                    self.declined = str(e)
                    self.restore(start)
                    T.FACTS[:] = saved
        cuts = self.cuts.get(P(n).key)
        if cuts is None:
            return self.whole_loop(n, bind, run, node)
        saved, start = list(T.FACTS), self.save()
        try:
            r = self.whole_loop(n, bind, run, node)
            filt = lambda h: sum(1 for c in h.values() if isinstance(c, Seq) for x in c.segs if x[0] == 'filt')
            if filt(self.heap) == filt(start[1]):
                return r
            # a selection: with the pieces the selected items may be known
            done = self.save()
            self.restore(start)
            T.FACTS[:] = saved
            try:
                return self.piecewise(cuts, n, bind, run, node)
            except Undecided:
                self.restore(done)
                T.FACTS[:] = saved
                return r
        except (Undecided, Break):
            self.restore(start)
            T.FACTS[:] = saved
        return self.piecewise(cuts, n, bind, run, node)

    def piecewise(self, cuts, n, bind, run, node):
        # the range in pieces: the first iteration of each piece on its own
        cuts = list(cuts) + [P(n)]
        try:
            for lo, hi in zip(cuts, cuts[1:]):
                m = hi - lo - 1
                c = m.const()
                if c == -1:
                    continue
                if not T.entails(list(T.FACTS), m):
                    raise Undecided('empty piece of a list')
                try:
                    bind(lo)
                    run()
                except Continue:
                    pass
                if c is not None:
                    for k in range(int(c)):
                        try:
                            bind(lo + 1 + k)
                            run()
                        except Continue:
                            pass
                    continue
                self.whole_loop(m, lambda i: bind(lo + 1 + i), run, node)
        except Break:
            pass

    def whole_loop(self, n, bind, run, node=None):
        if self.elementwise:
            return self.one_loop(n, bind, run, node)
        saved, start = list(T.FACTS), self.save()
        try:
            return self.one_loop(n, bind, run, node)
        except Undecided:
            # once more with the items of lists one by one
            if not any(isinstance(c, Seq) and len(c.segs) == 1 and c.segs[0][0] == 'items' and any(isinstance(x, Poly) for x in c.segs[0][1]) for c in start[1].values()) or self.retries > 40:
                raise
            self.retries += 1
            self.restore(start)
            T.FACTS[:] = saved
            self.elementwise = True
            try:
                return self.one_loop(n, bind, run, node)
            finally:
                self.elementwise = False

    def one_loop(self, n, bind, run, node=None):
        base = self.save()
        carried = {}         # loc -> placeholder description
        i = T.fresh('i')
        iname = T.var_name(i)
        sorts = {}
        mark = len(self.vcs)
        for attempt in range(7):
            self.restore(base)
            del self.vcs[mark:]
            for loc, ph in carried.items():
                self._put(loc, ph['value']() if callable(ph.get('value')) else ph['value'])
            start = self.save()
            T.FACTS.extend([i, n - 1 - i])

            def body():
                bind(i)
                try:
                    run()
                except Continue:
                    pass
            outs = self.explore(body)
            bad = [o for o in outs if o.kind != 'next']
            if bad:
                raise Undecided('a loop over a symbolic range is left early (%s)' % ', '.join(sorted({o.kind for o in bad})))
            inner = self.save()
            self.merge(outs, inner)
            after_env, after_heap = dict(self.env), dict(self.heap)
            del T.FACTS[:]
            T.FACTS.extend(start[4])
            locs = self._locs((start[0], start[1]), after_env, after_heap)
            new = [l for l in locs if l not in carried]
            # sorts of number placeholders may have to be widened
            widened = False
            for l, ph in carried.items():
                v = self._get(l, after_env, after_heap)
                if ph['kind'] == 'num' and isinstance(v, Poly):
                    need = 'i' if v.is_int() else ('r' if v.is_real() else 'c')
                    if 'irc'.index(need) > 'irc'.index(ph['sort']):
                        carried[l] = self._placeholder(self._get(l, base[0], base[1]), base, need)
                        widened = True
            if not new and not widened:
                break
            for l in new:
                v0 = self._get(l, base[0], base[1])
                v = self._get(l, after_env, after_heap)
                step = (v - v0).const() if l[0] == 'field' and l[2] == '$at' and isinstance(v, Poly) and isinstance(v0, Poly) else None
                if step is not None:
                    # a cursor that moves on by the same number of lines each time (confirmed in _solve)
                    carried[l] = {'kind': 'walk', 'value': v0 + i * P(step), 'init': v0, 'step': P(step)}
                    continue
                carried[l] = self._placeholder(v0, base, None)
        else:
            raise Undecided('loop state does not stabilise')
        # closed forms
        closed = {}          # placeholder name -> function (Poly j) -> term / fn
        final = {}
        todo = dict(carried)
        self.heap = after_heap
        self.env = after_env
        afters = {}
        for l, ph in carried.items():
            afters[l] = self._frozen_after(l, ph, after_env, after_heap)
        self._ahead(carried, afters, n, i)
        progress = True
        while todo and progress:
            progress = False
            for l in list(todo):
                r = self._solve(l, todo[l], afters[l], n, i, closed, todo)
                if r is not None:
                    final[l] = r
                    del todo[l]
                    progress = True
        self.last_loop = (carried, afters, i)
        if todo:
            raise Undecided('loop (line %s) carries %s in a form without a known invariant' % (node.get('lineno') if isinstance(node, dict) else getattr(node, 'lineno', '?'), ', '.join(str(l) for l in todo)))
        self.restore(base)
        for l, v in final.items():
            self._put(l, self.thaw(v) if l[0] != 'cell' else v)

    def _placeholder(self, v0, base, sort):
        if v0 is UNDEF:
            return {'kind': 'temp', 'value': UNDEF, 'init': UNDEF}
        cur = self.heap
        self.heap = base[1]
        try:
            f = self.freeze(v0)
        finally:
            self.heap = cur
        if isinstance(f, (bool, Bool)):
            f = f.p if isinstance(f, Bool) else P(f)
            v = T.fresh('h', 'i')
            return {'kind': 'num', 'name': T.var_name(v), 'value': Bool(v), 'init': f, 'sort': 'i', 'bool': True}
        if isinstance(f, Poly):
            s = sort or ('i' if f.is_int() else ('r' if f.is_real() else 'c'))
            v = T.fresh('h', s)
            return {'kind': 'num', 'name': T.var_name(v), 'value': v, 'init': f, 'sort': s}
        if isinstance(f, Arr):
            nm = 'H#%d' % next(T._fresh)
            a = arr(nm, f.shape, {'b': 'i', 'i': 'i', 'f': 'r', 'c': 'c'}[f.dtype])
            a.dtype = f.dtype
            isref = isinstance(v0, Ref)
            return {'kind': 'arr', 'name': nm, 'value': (lambda a=a: self.mk(a)) if isref else a, 'init': f, 'shape': f.shape}
        if self.texts and isinstance(f, (str, text.Text)):
            nm = 'X#%d' % next(T._fresh)
            return {'kind': 'text', 'name': nm, 'value': text.Text([('ph', nm)]), 'init': f}
        if isinstance(f, Seq) and self.elementwise and len(f.segs) == 1 and f.segs[0][0] == 'items' and all(isinstance(x, Poly) for x in f.segs[0][1]):
            # a list of numbers whose items change in place
            parts = [self._placeholder(x, base, None) for x in f.segs[0][1]]
            s = Seq((('items', tuple(p['value'] for p in parts)),))
            return {'kind': 'elems', 'parts': parts, 'value': (lambda s=s: ListRef(self.new(s))) if isinstance(v0, ListRef) else s, 'init': f}
        if isinstance(f, Seq):
            nm = 'S#%d' % next(T._fresh)
            s = Seq((('ph', nm),))
            isref = isinstance(v0, ListRef)
            return {'kind': 'seq', 'name': nm, 'value': (lambda s=s: ListRef(self.new(s))) if isref else s, 'init': f}
        # anything else must be overwritten before it is read
        return {'kind': 'temp', 'value': UNDEF, 'init': v0}

    def _frozen_after(self, l, ph, env, heap):
        self.env, self.heap = dict(env), dict(heap)
        v = self._get(l, env, heap)
        if l[0] == 'cell' and isinstance(v, Seq):
            # items that are arrays from outside the iteration must not be written afterwards: the list holds their present content
            for s in v.segs:
                for x in (s[1] if s[0] == 'items' else s[2] if s[0] == 'opt' else ()):
                    if isinstance(x, Ref):
                        self.pinned.add(x.cid)
            v = Seq(tuple(self._freeze_seg(s) for s in v.segs))
        v = self.freeze(v)
        if isinstance(v, Bool):
            v = v.p
        elif isinstance(v, bool):
            v = P(v)
        return v

    def _ahead(self, carried, afters, n, i):
        """Reads of an element that no earlier iteration has written have the initial value."""
        iname = T.var_name(i)
        writes = {}
        for l, ph in carried.items():
            a = afters[l]
            if ph['kind'] != 'arr' or not isinstance(a, Arr) or a.ndim != 1:
                continue
            own = ph['name']
            atoms = {}
            for mono in a.expr.m:
                for x, e in mono:
                    if x.kind == 'iv' and x.data[0] == 'eq' and iname in x.free and '@0' in x.free and own not in x.free:
                        atoms[x.key] = x
            # every term but the element's own value is within one bracket
            for x in atoms.values():
                rest = T.ZERO
                for mono, c in a.expr.m.items():
                    if not any(y is x for y, e in mono):
                        rest = rest + Poly({mono: c})
                if rest == T.app(own, [D(0)], 'r') or len(rest.m) == 1 and next(iter(rest.m.values())) == 1 and \
                        all(y.kind == 'app' and y.data[0] == own and e == 1 and [q.key for q in y.data[1]] == [D(0).key] for y, e in next(iter(rest.m))):
                    s = T._solve_for(x.data[1], {'@0'})
                    if s is not None and '@0' not in s[1].free:
                        st = T._coef(s[1], iname)
                        if st is not None and st.denominator == 1 and st != 0:
                            writes[own] = (s[1], st, ph['init'])
                            break
        if len(writes) < 1:
            return
        saved = list(T.FACTS)
        T.FACTS.extend([i, n - 1 - i])
        try:
            for own, (w, st, init) in writes.items():
                def value(*ix):
                    if ix[0].key != D(0).key and not any(x.startswith('_b') for x in ix[0].free):
                        # not written by iterations before i: beyond (in the direction of the loop) the last element written
                        d = (ix[0] - w) if st > 0 else (w - ix[0])
                        if T.entails(list(T.FACTS), d + abs(int(st)) - 1):
                            return init.at(ix[0])
                    return None
                for l in list(afters):
                    if isinstance(afters[l], Arr) and own in afters[l].expr.free:
                        afters[l] = Arr(afters[l].shape, _replace_some(afters[l].expr, own, value), afters[l].dtype)
                    elif isinstance(afters[l], Poly) and own in afters[l].free:
                        afters[l] = _replace_some(afters[l], own, value)
        finally:
            T.FACTS[:] = saved

    def _solve(self, l, ph, after, n, i, closed, todo):
        iname = T.var_name(i)
        others = {p['name'] for k, p in todo.items() if k != l and 'name' in p} | {q['name'] for k, p in todo.items() if k != l and p['kind'] == 'elems' for q in p['parts']}
        names = set()
        sub = lambda v: self._close(v, closed, i)
        if ph['kind'] == 'walk':
            if isinstance(after, Poly) and after == ph['init'] + (i + 1) * ph['step']:
                return ph['init'] + P(n) * ph['step']
            return None
        if ph['kind'] == 'text':
            own = ('ph', ph['name'])
            if isinstance(after, text.Text) and after.parts[:1] == (own,) and not any(p[0] == 'ph' for p in text.flat(text.Text(after.parts[1:]))):
                rest = sub(text.Text(after.parts[1:]))
                if value_free(rest) & others or not rest.parts:
                    return None if rest.parts else ph['init']
                q = T.fresh('q')
                return text.Text(text.of(self, ph['init']).parts + (('rep', P(n), T.var_name(q), text.subst(rest, {iname: q})),))
            if isinstance(after, (str, text.Text)) and (isinstance(after, str) or not any(p[0] == 'ph' for p in text.flat(after))):
                v = sub(after)
                if not T.entails(list(T.FACTS), P(n) - 1):
                    return UNDEF
                return None if value_free(v) & others else subst_value(v, {iname: P(n) - 1})
            return None
        if ph['kind'] == 'elems':
            if not isinstance(after, Seq) or len(after.segs) != 1 or after.segs[0][0] != 'items' or len(after.segs[0][1]) != len(ph['parts']):
                return None
            out = []
            for k, (p, v) in enumerate(zip(ph['parts'], after.segs[0][1])):
                mates = {('elem', j): q for j, q in enumerate(ph['parts']) if j != k}
                r = self._solve(('elem', k), p, v.p if isinstance(v, Bool) else v, n, i, closed, {**{x: y for x, y in todo.items() if x != l}, **mates})
                if r is None:
                    return None
                out.append(r)
            return Seq((('items', tuple(out)),))
        if ph['kind'] == 'seq':
            if not isinstance(after, Seq):
                return None
            segs = after.segs
            if segs == (('ph', ph['name']),):
                return ph['init']
            if len(segs) == 2 and segs[0] == ('ph', ph['name']) and segs[1][0] in ('items', 'opt'):
                if segs[1][0] == 'items' and len(segs[1][1]) != 1:
                    return None
                item = segs[1][1][0] if segs[1][0] == 'items' else segs[1][2][0]
                cond = T.ONE if segs[1][0] == 'items' else segs[1][1]
                item = sub(item)
                cond = sub(cond)
                fr = value_free(item) | cond.free
                if fr & others or ph['name'] in fr:
                    return None
                q = T.fresh('q')
                item = subst_value(item, {iname: q})
                cond = T.subst(cond, {iname: q})
                if segs[1][0] == 'items':
                    return Seq(ph['init'].segs + (('seq', P(n), T.var_name(q), item),))
                return Seq(ph['init'].segs + (('filt', P(n), T.var_name(q), cond, item),))
            if len(segs) == 2 and segs[0] == ('ph', ph['name']) and segs[1][0] == 'seq' and len(ph['init'].segs) == 0:
                # each iteration appends the same number of items
                m, qn, item = sub(segs[1][1]), segs[1][2], sub(segs[1][3])
                fr = value_free(item) | m.free
                if fr & others or ph['name'] in fr or iname in m.free:
                    return None
                r = T.fresh('q')
                k = T.floordiv(r, m)
                return Seq((('seq', P(n) * m, T.var_name(r), subst_value(item, {iname: k, qn: r - m * k})),))
            if ('ph', ph['name']) not in segs:
                after = sub(after)
                if (value_free(after) & others):
                    return None
                if not T.entails(list(T.FACTS), P(n) - 1):
                    return None
                return subst_value(after, {iname: P(n) - 1})
            return None
        if ph['kind'] == 'temp':
            v = sub(after)
            fr = value_free(v)
            if fr & others:
                return None
            if T.entails(list(T.FACTS), P(n) - 1) and ph['init'] is UNDEF or T.entails(list(T.FACTS), P(n) - 1):
                return subst_value(v, {iname: P(n) - 1})
            return UNDEF
        if ph['kind'] == 'num':
            if not isinstance(after, Poly):
                return None
            e = push_eq(sub(after))
            own = ph['name']
            if e.free & others:
                return None
            r = _linear(e, lambda a: a.kind == 'var' and a.data == own, own)
            if r is None:
                return None
            alpha, beta = r
            init = ph['init']
            if not beta.m and alpha.m and not (T.ONE - alpha).m:
                fn = lambda j: init
            elif not (T.ONE - alpha).m:
                fn = self._summed(init, beta, iname)
            elif not alpha.m:
                fn = lambda j: T.ite(T.ge(j, 1), T.subst(beta, {iname: P(j) - 1}), init)
            elif alpha.const() is None and not beta.m:
                fn = lambda j: init * product(alpha, iname, j)
            else:
                return None
            closed[own] = ('num', fn)
            v = fn(P(n))
            return mkbool(v) if ph.get('bool') else v
        if ph['kind'] == 'arr':
            if not isinstance(after, Arr) or after.ndim != len(ph['shape']):
                return None
            if not all(same_dim(a, b) for a, b in zip(after.shape, ph['shape'])):
                return None
            own = ph['name']
            here = tuple(D(k).key for k in range(after.ndim))
            plain = sub(after.expr)
            if plain.free & others:
                return None
            e = plain
            r = _linear(e, lambda a: a.kind == 'app' and a.data[0] == own and tuple(x.key for x in a.data[1]) == here and not a.data[2], own)
            if r is None:
                e = push_eq(plain)
                r = _linear(e, lambda a: a.kind == 'app' and a.data[0] == own and tuple(x.key for x in a.data[1]) == here and not a.data[2], own)
            else:
                r = (r[0], push_eq(r[1]))
            if r is None:
                e = T.merge_complements(e)
                r = _linear(e, lambda a: a.kind == 'app' and a.data[0] == own and tuple(x.key for x in a.data[1]) == here and not a.data[2], own)
                if r is None:
                    e = self._own_rows(e, own, ph['init'].expr, iname)
                    if e is None:
                        return None
                    r = _linear(e, lambda a: a.kind == 'app' and a.data[0] == own and tuple(x.key for x in a.data[1]) == here and not a.data[2], own)
                    if r is None:
                        return None
            alpha, beta = r
            alpha = T.merge_complements(T.resolve(alpha))
            size = ph['shape'][0].const() if after.ndim == 1 else None
            if alpha.m and size is not None and size <= 4 and all(not T.subst(alpha, {'@0': P(k)}).m for k in range(int(size))):
                # every element is overwritten
                alpha = T.ZERO
                beta = sum((T.bracket_eq(D(0) - k) * T.subst(beta, {'@0': P(k)}) for k in range(int(size))), T.ZERO)
            init = ph['init'].expr
            c = T.ONE - alpha
            if not c.m:
                fn = self._summed(init, beta, iname)
            elif not alpha.m:
                fn = lambda j: T.ite(T.ge(j, 1), T.subst(beta, {iname: P(j) - 1}), init)
            else:
                # last write wins: at most one iteration writes an element
                at = self._unique_write(c, beta, iname)
                if at is None:
                    return None
                sc = self._summed(T.ZERO, c, iname)
                sb = self._summed(T.ZERO, beta, iname)
                fn = lambda j: init * (T.ONE - sc(j)) + sb(j)
            closed[own] = ('arr', fn)
            dt = dtype_join(ph['init'].dtype, after.dtype)
            return Arr(ph['shape'], T.merge_complements(T.resolve(fn(P(n)))), dt)
        return None

    def _summed(self, init, beta, iname):
        def fn(j):
            q = T.fresh('q')
            return init + T.sum_range(q, 0, j, T.subst(beta, {iname: q}))
        return fn

    def _own_rows(self, e, own, init, iname):
        """Each iteration i writes only the elements with [a(i)] for an equation a that determines i, and reads of
        the array itself elements that no earlier iteration has written: these have their initial value."""
        cands = []
        for mono in e.m:
            for a, x in mono:
                if a.kind == 'iv' and a.data[0] == 'eq' and iname in a.free and a not in cands:
                    s = T._solve_for(a.data[1], {iname})
                    if s is not None and iname not in s[1].free and own not in s[1].free:
                        cands.append((a, s[1]))
        for a, when in cands:
            r = T.ZERO
            good = [True]

            def value(*ix):
                ix = [T.subst(x, {iname: when}) for x in ix]
                at = T.subst(when, {'@%d' % q: x for q, x in enumerate(ix)})
                if at != when and not T.entails(list(T.FACTS), at - when):
                    good[0] = False
                return T.subst(init, {'@%d' % q: x for q, x in enumerate(ix)})
            for mono, c in e.m.items():
                t = Poly({mono: c})
                if any(x is a for x, _ in mono):
                    t = T.replace_app(t, own, value)
                r = r + t
            if good[0]:
                return r
        return None

    def _unique_write(self, c, beta, iname):
        """All terms contain one bracket [e == 0] that determines the iteration."""
        common = None
        for p in (c, beta):
            for mono in p.m:
                s = set()
                for a, e in mono:
                    if a.kind == 'iv' and a.data[0] == 'eq' and iname in a.free:
                        k = T._coef(a.data[1], iname)
                        if k is not None:
                            s.add(a)
                common = s if common is None else common & s
        if common:
            return next(iter(common))
        # writes at stride*i + offset with different offsets modulo the stride
        offs, stride = [], None
        for p in (c, beta):
            for mono in p.m:
                mine = None
                for a, e in mono:
                    if a.kind == 'iv' and a.data[0] == 'eq' and iname in a.free and '@0' in a.free:
                        q = a.data[1]
                        k, d = T._coef(q, iname), T._coef(q, '@0')
                        if k is None or d is None or abs(d) != 1:
                            continue
                        q = q * (-d) if True else q
                        k = T._coef(q, iname)
                        rest = q - T.var(iname, 'i') * k - D(0) * T._coef(q, '@0')
                        if k > 0 and k.denominator == 1 and (stride is None or stride == k) and iname not in rest.free:
                            mine = (k, rest, a)
                if mine is None:
                    return None
                stride = mine[0]
                offs.append(mine[1:])
        for x, a in offs:
            for y, b in offs:
                if x == y:
                    continue
                d = (x - y).const()
                if d is None or d % stride == 0:
                    return None
        return offs[0][1] if offs else None

    def _close(self, v, closed, i):
        """Replaces solved placeholders by their value at the start of iteration i."""
        def f(p):
            for nm, (k, fn) in closed.items():
                if nm in p.free:
                    if k == 'num':
                        p = T.subst(p, {nm: fn(i)})
                    else:
                        p = T.replace_app(p, nm, lambda *ix: T.subst(fn(i), {'@%d' % q: x for q, x in enumerate(ix)}))
            return p
        return map_value(v, f)

    # ------------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Undecided('expression %s (line %d)' % (type(e).__name__, e.lineno))
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, bytes) and self.texts:
            return v.decode('latin-1')
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
            return v
        return P(v)

    def e_JoinedStr(self, e):
        if self.texts:
            out = ''
            for v in e.values:
                if isinstance(v, ast.Constant):
                    out = text.add(self, out, v.value)
                    continue
                spec = ''.join(x.value for x in v.format_spec.values) if v.format_spec is not None and all(isinstance(x, ast.Constant) for x in v.format_spec.values) else None
                if v.conversion not in (-1, 115) or v.format_spec is not None and spec is None:
                    raise Undecided('formatted text')
                out = text.add(self, out, text.plain(text.of(self, self.eval(v.value), spec or '')))
            return out
        out = ''
        for v in e.values:
            x = v.value if isinstance(v, ast.Constant) else None
            if isinstance(v, ast.FormattedValue):
                x = npfun.whole(self.eval(v.value)) if v.format_spec is None and v.conversion == -1 else None
            if x is None:
                return Opaque('text')
            out += str(x)
        return out

    def e_Name(self, e):
        return self.lookup(e.id)

    def lookup(self, name):
        if name in self.env:
            v = self.env[name]
            if v is UNDEF:
                raise Undecided('%s may be undefined here' % name)
            return v
        cl = self.env.get('$closure')
        while cl is not None:
            if name in cl:
                return cl[name]
            cl = cl.get('$closure')
        return self.global_name(self.module_stack[-1], name)

    def global_name(self, m, name):
        if m is not None:
            if name in m.functions:
                return Func(m.functions[name], m)
            if name in m.classes:
                return Ext('%s.%s' % (m.name, name))
            if name in m.assigns:
                k = ('global', m.name, name)
                if k in self.contracts:
                    return self.contracts[k]
                saved = self.env
                self.env = {}
                self.module_stack.append(m)
                try:
                    return self.eval(m.assigns[name])
                finally:
                    self.env = saved
                    self.module_stack.pop()
            if name in m.imports:
                return self.ext(m.imports[name])
            if name == '__name__':
                return '__main__' if m.name.startswith('script:') else m.name
        return Ext('builtins.' + name)

    def ext(self, dotted):
        """What a dotted import name denotes."""
        if dotted in self.contracts:
            c = self.contracts[dotted]
            return c if isinstance(c, (tuple, str, bool)) else Ext(dotted)
        if dotted in ('numpy.pi', 'math.pi', 'scipy.pi'):
            return T.PI
        parts = dotted.split('.')
        if parts[0] == 'dynaphopy':
            m = self.src.module(dotted)
            if m is not None and not (len(parts) > 1 and self.src.module('.'.join(parts[:-1])) is not None
                                      and parts[-1] in self.src.module('.'.join(parts[:-1])).functions):
                return Ext(dotted)
            m = self.src.module('.'.join(parts[:-1]))
            if m is not None and m.imports.get(parts[-1]) != dotted:
                if parts[-1] in m.functions:
                    return Func(m.functions[parts[-1]], m)
                if parts[-1] in m.classes or parts[-1] in m.assigns or parts[-1] in m.imports:
                    if parts[-1] in m.classes:
                        return Ext(dotted)
                    return self.global_name(m, parts[-1])
        return Ext(dotted)

    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def class_info(self, cls):
        mod, _, name = cls.rpartition('.')
        m = self.src.module(mod) or self.src.modules.get(mod)
        return m.classes.get(name) if m else None

    def getattr(self, o, name):
        if isinstance(o, Ext):
            return self.ext(o.name + '.' + name)
        if isinstance(o, Obj):
            d = self.heap[o.cid]
            if name in d:
                return d[name]
            k = '%s.%s' % (o.cls, name)
            if k in self.contracts:
                c = self.contracts[k]
                if getattr(c, 'is_property', False):
                    self.calls.append(k)
                    return c(self, o)
                return Bound(Ext(k), o)
            ci = self.class_info(o.cls)
            while ci is not None:
                q = ci.module.name + '.' + ci.name
                if name in ci.getters:
                    return self.call(Func(ci.getters[name], ci.module, cls=q), [o], {})
                if name in ci.methods:
                    return Bound(Func(ci.methods[name], ci.module, cls=q), o)
                if name in ci.consts:
                    return self.eval(ci.consts[name])
                nxt = None
                for b in ci.bases:
                    if b in ci.module.classes:
                        nxt = ci.module.classes[b]
                ci = nxt
            if d.get('$open'):
                raise Undecided('unknown attribute %s of %s' % (name, o.cls))
            if name == '__dict__':
                return DictRef(o.cid)
            raise PyExc('AttributeError', name)
        if isinstance(o, Ref):
            a = self.content(o)
            if name == 'shape':
                return tuple(a.shape)
            if name == 'T':
                return self.transpose(o)
            if name == 'ndim':
                return P(a.ndim)
            if name == 'size':
                r = T.ONE
                for s in a.shape:
                    r = r * s
                return r
            if name == 'real':
                return self.mk(Arr(a.shape, T.re(a.expr), 'f' if a.dtype == 'c' else a.dtype))
            if name == 'imag':
                return self.mk(Arr(a.shape, T.im(a.expr), 'f'))
            if name == 'dtype':
                return Opaque('dtype:' + a.dtype)
            if name == 'filename':
                raise PyExc('AttributeError')
            return Method(o, name)
        if isinstance(o, Poly):
            if name == 'real':
                return T.re(o)
            if name == 'imag':
                return T.im(o)
            if name == 'shape':
                return ()
            if name in ('round', 'conj', 'conjugate', 'astype', 'copy', 'item', 'sum', 'tolist'):
                return Method(o, name)
            raise PyExc('AttributeError')
        if isinstance(o, (ListRef, DictRef, str, tuple, Seq, text.Text)):
            return Method(o, name)
        if isinstance(o, Opaque):
            k = 'opaque:%s.%s' % (o.name, name)
            if k in self.contracts:
                return self.contracts[k]
            return Method(o, name)
        if o is None:
            raise PyExc('AttributeError', name)
        if isinstance(o, (Bool, bool)) and name in ('any', 'all'):
            return Method(o, name)
        raise Undecided('attribute %s of %r' % (name, o))

    def transpose(self, r):
        a = self.content(r)
        n = a.ndim
        if r.axes is None:
            axes = [('ax', n - 1 - k, T.ZERO, 1) for k in range(n)]
        else:
            axes = [x if x[0] == 'fix' else ('ax', n - 1 - x[1], x[2], x[3]) for x in r.axes]
        return Ref(r.cid, tuple(axes), tuple(reversed(a.shape)))

    # operators
    def e_BinOp(self, e):
        return self.binop(type(e.op).__name__, self.eval(e.left), self.eval(e.right))

    def num(self, v):
        if isinstance(v, Bool):
            return v.p
        if isinstance(v, bool):
            return P(v)
        if isinstance(v, Poly):
            return v
        if isinstance(v, F):
            return P(v)
        return None

    def binop(self, op, a, b):
        x, y = self.num(a), self.num(b)
        if x is not None and y is not None:
            if op in ('BitAnd', 'BitOr') and isinstance(a, (bool, Bool)) and isinstance(b, (bool, Bool)):
                return mkbool(x * y) if op == 'BitAnd' else mkbool(x + y - x * y)
            return scalar_op(op, x, y)
        if isinstance(a, ListRef) and isinstance(b, ListRef) and op == 'Add':
            return ListRef(self.new(Seq(self.heap[a.cid].segs + self.heap[b.cid].segs)))
        if op == 'Mult' and (isinstance(a, ListRef) or isinstance(b, ListRef)):
            l, k = (a, y) if isinstance(a, ListRef) else (b, x)
            if k is None:
                raise Undecided('list product')
            return self.replicate(l, k)
        if op == 'Add' and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if self.texts and op == 'Mod' and isinstance(a, str):
            return text.percent(self, a, b)
        if self.texts and op == 'Add' and isinstance(a, (str, text.Text, Opaque)) and isinstance(b, (str, text.Text, Opaque)):
            return text.add(self, a, b)
        if op == 'Mod' and isinstance(a, str):
            v = [npfun.whole(x) for x in (b if isinstance(b, tuple) else (b,))]
            if None not in v:
                try:
                    return a % tuple(v)
                except (TypeError, ValueError):
                    raise PyExc('TypeError')
            return Opaque('text')
        if isinstance(a, (str, Opaque)) and isinstance(b, (str, Opaque)) and op == 'Add':
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            return Opaque('text')
        if isinstance(a, (Ref, ListRef, tuple)) or isinstance(b, (Ref, ListRef, tuple)):
            A, B = self.arr(a), self.arr(b)
            shape, (p, q) = broadcast([A, B])
            r = scalar_op(op, p, q)
            dt = dtype_join(A.dtype, B.dtype)
            if op in ('Div',) and dt in 'bi':
                dt = 'f'
            if op == 'Pow' and not r.is_int() and dt in 'bi':
                dt = 'f'
            if dt == 'b' and op not in ('BitAnd', 'BitOr'):
                dt = 'i'
            return self.mk(Arr(shape, r, dt))
        if op == 'Mult' and (isinstance(a, (str, text.Text)) and y is not None or isinstance(b, (str, text.Text)) and x is not None):
            t, k = (a, y) if y is not None else (b, x)
            c = k.const()
            if c is not None and c.denominator == 1 and isinstance(t, str):
                return t * int(c)
            if self.texts and k.is_int() and T.entails(list(T.FACTS), k):
                return text.Text([('rep', k, T.var_name(T.fresh('q')), text.of(self, t))])
        raise Undecided('%s on %r and %r' % (op, a, b))

    def replicate(self, l, k):
        segs = self.heap[l.cid].segs
        c = k.const()
        if c is not None:
            if len(segs) == 1 and segs[0][0] == 'items':
                return ListRef(self.new(Seq((('items', segs[0][1] * int(c)),) if c > 0 else ())))
            return ListRef(self.new(Seq(segs * int(c))))
        if len(segs) == 1 and segs[0][0] == 'items' and len(segs[0][1]) == 1:
            q = T.fresh('q')
            return ListRef(self.new(Seq((('seq', k, T.var_name(q), self.freeze(segs[0][1][0])),))))
        raise Undecided('replicated list')

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        op = type(e.op).__name__
        if op == 'Not':
            c = self.cond(v)
            return (not c) if isinstance(c, bool) else mkbool(T.neg(c))
        x = self.num(v)
        if x is not None:
            if op == 'USub':
                return -x
            if op == 'UAdd':
                return x
            if op == 'Invert' and isinstance(v, (bool, Bool)):
                return mkbool(T.neg(x))
        if isinstance(v, Ref):
            a = self.content(v)
            if op == 'USub':
                return self.mk(Arr(a.shape, -a.expr, a.dtype))
            if op == 'Invert' and a.dtype == 'b':
                return self.mk(Arr(a.shape, T.ONE - a.expr, 'b'))
        raise Undecided('%s of %r' % (op, v))

    def cond0(self, v):
        """bool, or indicator term."""
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, Bool):
            return v.p
        if isinstance(v, Poly):
            c = v.const()
            if c is not None:
                return c != 0
            c = T.neg(T.bracket_eq(v))
            k = c.const()
            return c if k is None else bool(k)
        if isinstance(v, (str, tuple)):
            return len(v) > 0
        if isinstance(v, text.Text) and any(p[0] in 'snw' for p in v.parts):
            return True
        if isinstance(v, ListRef):
            n = self.length(v)
            return self.cond(n)
        if isinstance(v, DictRef):
            return len(self.heap[v.cid]) > 0
        if isinstance(v, (Obj, Func, Bound, Ext)):
            return True
        if isinstance(v, Ref):
            a = self.content(v)
            if all(s.const() == 1 for s in a.shape):
                return self.cond(a.at(*[0] * a.ndim))
        if isinstance(v, Opaque):
            return T.neg(T.bracket_eq(T.var('truth:' + v.name, 'i', nn=True)))
        raise Undecided('truth of %r' % (v,))

    def cond(self, v):
        c = self.cond0(v)
        f = getattr(self, 'rewrite_condition', None)
        if f is not None and isinstance(c, Poly) and c.const() is None:
            c = f(self, c)
            if c.const() is not None:
                return c.const() == 1
        return c

    def truth(self, v):
        c = self.cond(v)
        if isinstance(c, bool):
            return c
        return self.decide(c)

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)
        conds = []
        for k, x in enumerate(e.values):
            v = self.eval(x)
            c = self.cond(v)
            last = k == len(e.values) - 1
            if isinstance(c, bool):
                if is_and and not c:
                    if not conds:
                        return v
                    return False
                if not is_and and c:
                    if not conds:
                        return v
                    return True
                if last and not conds:
                    return v
                continue
            kn = self.known(c)
            if kn is not None:
                if is_and and not kn or not is_and and kn:
                    return mkbool(P(kn)) if not conds else (False if is_and else True)
                continue
            # later operands are evaluated only when this one does not decide: they must not have effects
            conds.append(c)
            if not last:
                try:
                    rest = [self.eval(y) for y in e.values[k + 1:]]
                    cs = [self.cond(r) for r in rest]
                    cs = [P(r) if isinstance(r, bool) else r for r in cs]
                    p = conds[0]
                    allc = conds + cs
                    if is_and:
                        r = T.ONE
                        for q in allc:
                            r = r * q
                    else:
                        r = T.ONE
                        for q in allc:
                            r = r * T.neg(q)
                        r = T.neg(r) if len(allc) == 1 else T.ONE - r
                    return mkbool(r)
                except (PyExc, Undecided):
                    t = self.decide(c)
                    conds.pop()
                    if is_and and not t:
                        return False
                    if not is_and and t:
                        return True
        if not conds:
            return True if is_and else False
        r = T.ONE
        if is_and:
            for q in conds:
                r = r * q
        else:
            for q in conds:
                r = r * T.neg(q)
            r = T.ONE - r if len(conds) > 1 else conds[0]
        return mkbool(r)

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = T.ONE
        for op, rr in zip(e.ops, e.comparators):
            right = self.eval(rr)
            c = self.compare(type(op).__name__, left, right)
            if isinstance(c, Ref):
                if len(e.ops) > 1:
                    raise Undecided('chained comparison of arrays')
                return c
            if isinstance(c, bool):
                if not c:
                    return False
            else:
                res = res * c
            left = right
        return mkbool(res)

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            r = self.identical(a, b)
            return r if op == 'Is' else (not r if isinstance(r, bool) else T.neg(r))
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            if isinstance(r, bool):
                return r if op == 'In' else not r
            return r if op == 'In' else T.neg(r)
        x, y = self.num(a), self.num(b)
        if x is not None and y is not None:
            return scalar_cmp(op, x, y)
        if isinstance(a, (Ref,)) or isinstance(b, (Ref,)):
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                return op == 'NotEq'
            A, B = self.arr(a), self.arr(b)
            shape, (p, q) = broadcast([A, B])
            r = scalar_cmp(op, p, q)
            return self.mk(Arr(shape, P(r), 'b'))
        if isinstance(a, text.Text) and isinstance(b, text.Text) and op in ('Eq', 'NotEq') and a == b:
            return op == 'Eq'
        for x, y in ((a, b), (b, a)):
            if isinstance(x, text.Text) and x.parts == (('w', text.DIGIT),) and isinstance(y, str) and op in ('Eq', 'NotEq') and len(y) == 1 and y not in '+-. 0123456789':
                return op == 'NotEq'
        if (isinstance(a, text.Text) or isinstance(b, text.Text)) and not (a is None or b is None):
            raise Undecided('comparison of texts')
        if op in ('Eq', 'NotEq'):
            if a is None or b is None or isinstance(a, str) and isinstance(b, str) or isinstance(a, str) != isinstance(b, str) and not isinstance(a, Opaque) and not isinstance(b, Opaque):
                r = a == b if not (isinstance(a, Poly) or isinstance(b, Poly)) else False
                return r if op == 'Eq' else not r
            if isinstance(a, tuple) and isinstance(b, tuple):
                if len(a) != len(b):
                    return op == 'NotEq'
                r = T.ONE
                for u, w in zip(a, b):
                    c = self.compare('Eq', u, w)
                    r = r * P(c)
                return r if op == 'Eq' else T.neg(r)
            if isinstance(a, ListRef) and isinstance(b, ListRef):
                x, y = self.length(a), self.length(b)
                if (x - y).const() not in (None, 0) or T.entails(list(T.FACTS), x - y - 1) or T.entails(list(T.FACTS), y - x - 1):
                    return op == 'NotEq'
                if x.const() is not None and y.const() is not None:
                    return self.compare(op, tuple(self.items(a)), tuple(self.items(b)))
            if isinstance(a, (ListRef, tuple)) and isinstance(b, (ListRef, tuple)) and type(a) is not type(b):
                return op == 'NotEq'
            if isinstance(a, Opaque) and isinstance(b, Opaque) and a.name == b.name and a.name != 'text':
                return op == 'Eq'
            if isinstance(a, Opaque) and isinstance(b, str) or isinstance(b, Opaque) and isinstance(a, str):
                o, s = (a, b) if isinstance(a, Opaque) else (b, a)
                if o.name.startswith('str:'):
                    r = T.bracket_eq(T.var(o.name + '=' + s, 'i', nn=True) - 1)
                    return r if op == 'Eq' else T.neg(r)
            if isinstance(a, Obj) and isinstance(b, Obj):
                r = a.cid == b.cid
                return r if op == 'Eq' else not r
        raise Undecided('comparison %s of %r and %r' % (op, a, b))

    def identical(self, a, b):
        if a is None or b is None:
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                o = a if isinstance(a, Opaque) else b
                if o.name.startswith('some:'):
                    return False
                return T.bracket_eq(T.var('none:' + o.name, 'i', nn=True))
            if isinstance(a, (Maybe,)) or isinstance(b, Maybe):
                return (a if isinstance(a, Maybe) else b).none
            o = b if a is None else a
            if isinstance(o, Poly) and NONE_NAME in o.free:
                # an item of an array of objects: its weight of None
                at = T.var(NONE_NAME, 'i')
                (am, _), = at.m.items()
                w = T.ZERO
                for mono, co in o.m.items():
                    if (am[0][0], T.F(1)) in mono or any(x is am[0][0] for x, e in mono):
                        t = P(co)
                        for x, e in mono:
                            if x is am[0][0]:
                                continue
                            t = t * P(x) ** e
                        w = w + t
                if NONE_NAME in w.free:
                    raise Undecided('None inside an expression')
                w = T.resolve(w)
                return w if w.const() is None else w.const() == 1
            return a is b
        if isinstance(a, bool) and isinstance(b, bool):
            return a is b
        if isinstance(a, (Obj, Ref, ListRef, DictRef)) and type(a) is type(b):
            return a.cid == b.cid and getattr(a, 'axes', None) == getattr(b, 'axes', None)
        if isinstance(a, Bool) and isinstance(b, bool):
            return a.p if b else T.neg(a.p)
        if isinstance(b, Bool) and isinstance(a, bool):
            return self.identical(b, a)
        if isinstance(a, (bool, Bool)) != isinstance(b, (bool, Bool)):
            return False
        raise Undecided('identity of %r and %r' % (a, b))

    def contains(self, c, x):
        if isinstance(c, DictRef):
            d = self.heap[c.cid]
            k = dict_key(x)
            if isinstance(k, (str, F)):
                return k in d
            raise Undecided('key %r' % (x,))
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, text.Text) and isinstance(x, str):
            if text.find(c, x) is None:
                return False
            return True
        if isinstance(c, Obj):
            return self.cond(self.call(self.getattr(c, '__contains__'), [x], {}))
        if isinstance(c, ListRef) and self.num(x) is not None and any(g[0] == 'seq' for g in self.heap[c.cid].segs):
            x = self.num(x)
            r = T.ONE
            for g in self.heap[c.cid].segs:
                if g[0] == 'items':
                    for y in g[1]:
                        r = r * (T.ONE - P(self.compare('Eq', x, y)))
                elif g[0] == 'seq' and isinstance(g[3], Poly):
                    off = g[3] - T.var(g[2], 'i', nn=True)
                    if g[2] not in off.free:
                        r = r * (T.ONE - T.ge(x - off, 0) * T.ge(g[1] - 1 - x + off, 0))
                    else:
                        q = T.fresh('q')
                        r = r * (T.ONE - T.ge(T.sum_range(q, 0, g[1], T.eq(T.subst(g[3], {g[2]: q}), x)), 1))
                else:
                    raise Undecided('membership in a list')
            r = T.ONE - r
            return bool(r.const()) if r.const() is not None else r
        if isinstance(c, (tuple, ListRef)):
            items = self.items(c)
            r = T.ONE
            for y in items:
                q = self.compare('Eq', x, y)
                if q is True:
                    return True
                r = r * (T.ONE - P(q))
            r = T.ONE - r
            return bool(r.const()) if r.const() is not None else r
        if isinstance(c, Range) and c.step == 1 and self.num(x) is not None and self.num(x).is_int():
            r = T.ge(self.num(x), c.lo) * T.ge(c.hi - 1, self.num(x))
            return bool(r.const()) if r.const() is not None else r
        if isinstance(c, Opaque):
            return T.neg(T.bracket_eq(T.var('in:%s:%s' % (c.name, x if isinstance(x, str) else '?'), 'i', nn=True)))
        raise Undecided('membership')

    def e_IfExp(self, e):
        c = self.cond(self.eval(e.test))
        if not isinstance(c, bool):
            k = self.known(c)
            c = k if k is not None else c
        if isinstance(c, bool):
            return self.eval(e.body if c else e.orelse)
        base = self.save()
        try:
            a = self.eval(e.body)
            b = self.eval(e.orelse)
            if self.num(a) is not None and self.num(b) is not None:
                if isinstance(a, (bool, Bool)) and isinstance(b, (bool, Bool)):
                    return mkbool(T.ite(c, self.num(a), self.num(b)))
                return T.ite(c, self.num(a), self.num(b))
        except (PyExc, Undecided):
            pass
        self.restore(base)
        return self.eval(e.body if self.decide(c) else e.orelse)

    def e_Tuple(self, e):
        return tuple(self._star(e.elts))

    def _star(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.items(self.eval(x.value)))
            else:
                out.append(self.eval(x))
        return out

    def e_List(self, e):
        return self.new_list(self._star(e.elts))

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            kk = self.eval(k)
            d[dict_key(kk)] = self.eval(v)
        return DictRef(self.new(d))

    def e_Lambda(self, e):
        return Func(e, self.module_stack[-1], env=self.env)

    def e_ListComp(self, e):
        r = self.new_list([])
        self._comp(e.generators, 0, e.elt, r)
        return r

    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e):
        out = DictRef(self.new({}))
        pair = ast.copy_location(ast.Tuple([e.key, e.value], ast.Load()), e)
        items = self.new_list([])
        self._comp(e.generators, 0, pair, items)
        for k, v in self.items(items):
            self.store(out, (k,), v)
        return out

    def _comp(self, gens, k, elt, out):
        saved = dict(self.env)
        g = gens[k]
        n, f = self.iterator(self.eval(g.iter))
        if isinstance(n, Poly) and n.const() is not None:
            n = int(n.const())

        def one():
            for t in g.ifs:
                if not self.truth(self.eval(t)):
                    return
            if k + 1 < len(gens):
                self._comp(gens, k + 1, elt, out)
            else:
                self.append(out, self.eval(elt))
        if isinstance(n, int):
            for i in range(n):
                self.assign(g.target, f(i))
                self._merged(one)
        elif isinstance(n, tuple):
            raise Undecided('comprehension over a filtered list')
        else:
            own = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}

            def bind(i):
                for x in own:
                    self.env.pop(x, None)
                self.assign(g.target, f(i))

            def run():
                one()
                for x in own:
                    self.env.pop(x, None)
            self.loop(n, bind, run)
        bound = set()
        for gg in gens:
            for x in ast.walk(gg.target):
                if isinstance(x, ast.Name):
                    bound.add(x.id)
        for b in bound:
            if b in saved:
                self.env[b] = saved[b]
            else:
                self.env.pop(b, None)

    def _merged(self, thunk):
        """Runs thunk with its branches merged."""
        base = self.save()
        outs = self.explore(thunk)
        if len(outs) == 1 and outs[0].kind == 'next':
            self.restore(outs[0].state)
            return outs[0].value
        if any(o.kind != 'next' for o in outs):
            self.restore(base)
            return thunk()
        v = self.merge(outs, base)
        return v

    def append(self, l, v):
        s = self.heap[l.cid]
        segs = s.segs
        if segs and segs[-1][0] == 'items':
            segs = segs[:-1] + (('items', segs[-1][1] + (v,)),)
        else:
            segs = segs + (('items', (v,)),)
        self.heap[l.cid] = Seq(segs)

    # ------------------------------------------------------------------ sequences
    def seq_of(self, v):
        if isinstance(v, ListRef):
            return self.heap[v.cid]
        if isinstance(v, tuple):
            return Seq((('items', v),)) if v else Seq(())
        if isinstance(v, Ref):
            n, f = self.iterator(v)
            if isinstance(n, int):
                return Seq((('items', tuple(f(k) for k in range(n))),)) if n else Seq(())
            q = T.fresh('q')
            return Seq((('seq', P(n), T.var_name(q), self.freeze(f(q))),))
        if isinstance(v, Range):
            n, f = self.iterator(v)
            if isinstance(n, int):
                return Seq((('items', tuple(P(f(k)) for k in range(n))),)) if n else Seq(())
            q = T.fresh('q')
            return Seq((('seq', P(n), T.var_name(q), f(q)),))
        if isinstance(v, (ZipV, EnumV, ProductV)):
            n, f = self.iterator(v)
            if isinstance(n, int):
                return Seq((('items', tuple(f(k) for k in range(n))),)) if n else Seq(())
            q = T.fresh('q')
            return Seq((('seq', P(n), T.var_name(q), self.freeze(f(q))),))
        if isinstance(v, DictRef):
            return Seq((('items', tuple(self.heap[v.cid])),))
        raise Undecided('sequence of %r' % (v,))

    def items(self, v, n=None):
        """Concrete items of a sequence of known length."""
        if isinstance(v, tuple):
            r = list(v)
        elif isinstance(v, Ref):
            c = self.content(v).shape[0].const()
            if c is None:
                if n is None:
                    raise Undecided('items of an array of unknown length')
                c = n
            r = [self.subscript(v, (P(k),)) for k in range(int(c))]
        elif isinstance(v, (ListRef, Range, ZipV, EnumV, ProductV, DictRef)):
            segs = self.seq_of(v).segs
            r = []
            for s in segs:
                if s[0] == 'items':
                    r.extend(s[1])
                else:
                    raise Undecided('items of a list of unknown length')
        elif isinstance(v, str):
            r = list(v)
        else:
            raise Undecided('items of %r' % (v,))
        if n is not None and len(r) != n:
            raise PyExc('ValueError')
        return r

    def length(self, v):
        if isinstance(v, Ref):
            return self.content(v).shape[0]
        if isinstance(v, (tuple, str)):
            return P(len(v))
        if isinstance(v, ListRef):
            r = T.ZERO
            for s in self.heap[v.cid].segs:
                if s[0] == 'items':
                    r = r + len(s[1])
                elif s[0] == 'seq':
                    r = r + s[1]
                elif s[0] == 'filt':
                    q = T.fresh('q')
                    r = r + T.sum_range(q, 0, s[1], T.subst(s[3], {s[2]: q}))
                else:
                    raise Undecided('length of a growing list')
            return r
        if isinstance(v, DictRef):
            return P(len(self.heap[v.cid]))
        if isinstance(v, Range):
            n, _ = self.iterator(v)
            return P(n)
        if isinstance(v, (ZipV, EnumV, ProductV)):
            n, _ = self.iterator(v)
            return P(n)
        raise Undecided('length of %r' % (v,))

    def arr(self, v):
        """Array content of a value (numbers are rank 0)."""
        if isinstance(v, Ref):
            return self.content(v)
        if isinstance(v, Arr):
            return v
        if isinstance(v, Obj) and str(v.cls) + '.__array__' in self.contracts:
            return self.arr(self.contracts[v.cls + '.__array__'](self, v))
        x = self.num(v)
        if x is not None:
            return Arr((), x, 'b' if isinstance(v, (bool, Bool)) else None)
        if isinstance(v, (ListRef, tuple, Range, Seq, ZipV, ProductV)):
            segs = v.segs if isinstance(v, Seq) else self.seq_of(v).segs
            if not segs:
                return Arr((0,), T.ZERO, 'f')
            if len(segs) == 1 and segs[0][0] == 'items':
                parts = [Arr((), T.var(NONE_NAME, 'i'), 'i') if x is None else self.arr(x) for x in segs[0][1]]
                shape = parts[0].shape
                expr = T.ZERO
                for k, p in enumerate(parts):
                    if p.ndim != len(shape) or not all(same_dim(a, b) for a, b in zip(p.shape, shape)):
                        raise Undecided('ragged array')
                shift = {'@%d' % k: D(k + 1) for k in range(len(shape))}
                es = [T.subst(p.expr, shift) for p in parts]
                if len(es) == 1:
                    expr = es[0]
                elif all(x == es[0] for x in es):
                    expr = es[0]
                else:
                    for k, x in enumerate(es):
                        expr = expr + T.bracket_eq(D(0) - k) * x
                return Arr((len(parts),) + shape, expr, dtype_join(*[p.dtype for p in parts]))
            if len(segs) == 1 and segs[0][0] == 'seq':
                p = Arr((), T.var(NONE_NAME, 'i'), 'i') if segs[0][3] is None else self.arr(segs[0][3]) if not isinstance(segs[0][3], Arr) else segs[0][3]
                shift = {'@%d' % k: D(k + 1) for k in range(p.ndim)}
                e = T.subst(p.expr, shift)
                e = T.subst(e, {segs[0][2]: D(0)})
                return Arr((segs[0][1],) + p.shape, e, p.dtype)
            # several segments: by ranges of the index
            parts, expr, dt = [], T.ZERO, None
            for lo, hi, g in self.spans(segs):
                a = self.arr(Seq((g,)))
                if parts and (a.ndim != parts[0].ndim or not all(same_dim(x, y) for x, y in zip(a.shape[1:], parts[0].shape[1:]))):
                    raise Undecided('ragged array')
                parts.append(a)
                expr = expr + T.ge(D(0), lo) * T.ge(hi - 1, D(0)) * T.subst(a.expr, {'@0': D(0) - lo})
            return Arr((hi,) + parts[0].shape[1:], expr, dtype_join(*[p.dtype for p in parts]))
        raise Undecided('array of %r' % (v,))

    # ------------------------------------------------------------------ subscripts
    def index(self, node):
        if isinstance(node, ast.Tuple):
            return tuple(self.index1(x) for x in node.elts)
        return (self.index1(node),)

    def index1(self, node):
        if isinstance(node, ast.Slice):
            f = lambda x: None if x is None else self.eval(x)
            return Slice(f(node.lower), f(node.upper), f(node.step))
        return self.eval(node)

    def e_Subscript(self, e):
        return self.subscript(self.eval(e.value), self.index(e.slice))

    def norm_index(self, p, n):
        """Python index p on length n, as position from the start."""
        c = p.const()
        if c is not None:
            if c >= 0:
                return p
            return n + p
        if T.nonneg(p) or T.entails(list(T.FACTS), p):
            return p
        if T.entails(list(T.FACTS), -p - 1):
            return n + p
        k = T.bracket_ge(p)
        kc = k.const()
        if kc is not None:
            return p if kc else n + p
        return T.ite(k, p, n + p)

    def clip(self, v, n, default):
        if v is None:
            return default
        v = self.num(v)
        if v is None:
            raise Undecided('slice bound')
        F_ = list(T.FACTS)
        c = v.const()
        neg = c < 0 if c is not None else (False if T.nonneg(v) or T.entails(F_, v) else (True if T.entails(F_, -v - 1) else None))
        if neg is None:
            return T.ite(T.ge(v, 0), self._upper(v, n), self._lower(n + v))
        if neg:
            return self._lower(n + v)
        return self._upper(v, n)

    def _lower(self, x):
        if x.const() is not None:
            return P(max(x.const(), 0))
        if T.entails(list(T.FACTS), x):
            return x
        if T.entails(list(T.FACTS), -x):
            return T.ZERO
        return T.ite(T.ge(x, 0), x, 0)

    def _upper(self, x, n):
        d = n - x
        if d.const() is not None:
            return x if d.const() >= 0 else n
        if T.entails(list(T.FACTS), d):
            return x
        if T.entails(list(T.FACTS), -d):
            return n
        return T.ite(T.ge(d, 0), x, n)

    def slice_of(self, s, n):
        """(start, length, step)"""
        step = s.step
        if step is None:
            step = 1
        else:
            c = self.num(step).const()
            if c is None:
                step = self.num(step)
            else:
                step = int(c)
        if isinstance(step, int) and step == -1 and s.lo is None and s.hi is None:
            return n - 1, n, -1
        if isinstance(step, int) and step < 0:
            raise Undecided('negative slice step')
        lo = self.clip(s.lo, n, T.ZERO)
        hi = self.clip(s.hi, n, n)
        m = hi - lo
        if not (m.const() is not None and m.const() >= 0) and not T.entails(list(T.FACTS), m):
            if T.entails(list(T.FACTS), -m):
                m = T.ZERO
            else:
                m = T.ite(T.ge(m, 0), m, 0)
        elif m.const() is not None and m.const() < 0:
            m = T.ZERO
        if not (isinstance(step, int) and step == 1):
            c = m.const()
            if c is not None and isinstance(step, int):
                m = P(-(-int(c) // step))
            else:
                m = T.floor((m + P(step) - 1) / P(step))
        return lo, m, step

    def view(self, r, ix):
        """View of an array reference for basic indices."""
        a = self.content(r)
        n = a.ndim
        ix = list(ix)
        if any(x is Ellipsis for x in ix):
            k = [x is Ellipsis for x in ix].index(True)
            miss = n - sum(x is not None and x is not Ellipsis for x in ix)
            ix[k:k + 1] = [Slice(None, None, None)] * miss
        spec, shape = {}, []
        axis = 0
        for x in ix:
            if x is None or isinstance(x, Ext) and x.name == 'numpy.newaxis':
                shape.append(P(1))
                continue
            if axis >= n:
                raise PyExc('IndexError')
            d = a.shape[axis]
            if isinstance(x, Slice):
                lo, m, st = self.slice_of(x, d)
                spec[axis] = ('ax', len(shape), lo, st)
                shape.append(m)
            else:
                p = self.num(x)
                if p is None:
                    return None
                spec[axis] = ('fix', self.norm_index(p, d))
            axis += 1
        while axis < n:
            spec[axis] = ('ax', len(shape), T.ZERO, 1)
            shape.append(a.shape[axis])
            axis += 1
        # compose with the present view
        cell = self.heap[r.cid]
        axes = []
        cur = r.axes or tuple(('ax', j, T.ZERO, 1) for j in range(cell.ndim))
        for ax in cur:
            if ax[0] == 'fix':
                axes.append(ax)
            else:
                s = spec[ax[1]]
                if s[0] == 'fix':
                    axes.append(('fix', ax[2] + s[1] * ax[3]))
                else:
                    axes.append(('ax', s[1], ax[2] + s[2] * ax[3], P(ax[3]) * P(s[3]) if not (isinstance(ax[3], int) and isinstance(s[3], int)) else ax[3] * s[3]))
        return Ref(r.cid, tuple(axes), tuple(shape))

    def subscript(self, o, ix):
        if isinstance(o, Ref):
            if all(isinstance(x, (Slice, Poly, bool, type(None), type(Ellipsis))) or isinstance(x, Ext) for x in ix):
                v = self.view(o, ix)
                if v is not None:
                    if not v.shape:
                        return self.content(v).expr
                    return v
            # one index array, the rest basic
            a = self.content(o)
            adv = [k for k, x in enumerate(ix) if isinstance(x, (Ref, ListRef, tuple))]
            if len(adv) == 1:
                k = adv[0]
                b = self.arr(ix[k])
                if b.dtype == 'b':
                    return npfun.mask_select(self, o, ix, k, b)
                pre = list(ix[:k]) + [Slice(None, None, None)] + list(ix[k + 1:])
                v = self.content(self.view(o, pre))
                axis = sum(isinstance(x, Slice) for x in ix[:k])
                # v has axis `axis` to be replaced by the axes of b
                sub = {}
                for j in range(v.ndim):
                    if j < axis:
                        sub['@%d' % j] = D(j)
                    elif j > axis:
                        sub['@%d' % j] = D(j + b.ndim - 1)
                be = T.subst(b.expr, {'@%d' % q: D(q + axis) for q in range(b.ndim)})
                sub['@%d' % axis] = self.norm_index(be, v.shape[axis])
                return self.mk(Arr(v.shape[:axis] + b.shape + v.shape[axis + 1:], T.subst(v.expr, sub), v.dtype))
            raise Undecided('index')
        if isinstance(o, ListRef):
            segs = self.heap[o.cid].segs
            x = ix[0]
            if len(ix) == 1 and isinstance(x, Slice):
                if len(segs) == 1 and segs[0][0] == 'items':
                    g = lambda t: None if t is None else int(self.num(t).const())
                    return self.new_list(list(segs[0][1])[slice(g(x.lo), g(x.hi), g(x.step))])
                if len(segs) == 1 and segs[0][0] == 'seq':
                    lo, m, st = self.slice_of(x, segs[0][1])
                    q = T.fresh('q')
                    return ListRef(self.new(Seq((('seq', m, T.var_name(q), subst_value(segs[0][3], {segs[0][2]: lo + q * P(st)})),))))
                return self.composite_slice(o, segs, x)
            p = self.num(x)
            if p is None:
                raise PyExc('TypeError')
            c = p.const()
            if len(segs) == 1 and segs[0][0] == 'items' or all(s[0] == 'items' for s in segs):
                its = [y for s in segs for y in s[1]]
                if c is not None:
                    try:
                        return its[int(c)]
                    except IndexError:
                        raise PyExc('IndexError')
                vals = [self.freeze(y) for y in its]
                if all(isinstance(y, Poly) for y in vals):
                    r = T.ZERO
                    for k, y in enumerate(vals):
                        r = r + T.eq(p, k) * y
                    return r
                raise Undecided('symbolic index into a list of objects')
            if len(segs) == 1 and segs[0][0] == 'seq':
                k = self.norm_index(p, segs[0][1])
                return self.thaw(subst_value(segs[0][3], {segs[0][2]: k}))
            return self.composite(segs, p)
        if isinstance(o, tuple):
            x = ix[0]
            if isinstance(x, Slice):
                g = lambda t: None if t is None else int(self.num(t).const())
                return o[slice(g(x.lo), g(x.hi), g(x.step))]
            c = self.num(x)
            if c is None or c.const() is None:
                if c is not None and all(isinstance(y, Poly) for y in o):
                    r = T.ZERO
                    for k, y in enumerate(o):
                        r = r + T.eq(c, k) * y
                    return r
                raise Undecided('symbolic index into a tuple')
            try:
                return o[int(c.const())]
            except IndexError:
                raise PyExc('IndexError')
        if isinstance(o, DictRef):
            d = self.heap[o.cid]
            k = dict_key(ix[0])
            if isinstance(k, (str, F)):
                if k in d:
                    return d[k]
                if d.get('$default') is not None:
                    return d['$default'](self, k)
                raise PyExc('KeyError')
            raise Undecided('key')
        if isinstance(o, Seq):
            return self.subscript(ListRef(self.new(o)), ix)
        if isinstance(o, Obj):
            return self.call(self.getattr(o, '__getitem__'), [ix[0] if len(ix) == 1 else tuple(ix)], {})
        if isinstance(o, text.Text):
            x = ix[0]
            if isinstance(x, Poly) and x.const() == 0 and o.parts and o.parts[0][0] == 's':
                return o.parts[0][1][0]
            if isinstance(x, Poly) and x.const() == 0 and o.parts and o.parts[0][0] == 'n':
                return text.Text([('w', text.DIGIT)])
            raise Undecided('part of a text')
        if isinstance(o, str):
            x = ix[0]
            if isinstance(x, Slice):
                g = lambda t: None if t is None else int(self.num(t).const())
                return o[slice(g(x.lo), g(x.hi), g(x.step))]
            return o[int(self.num(x).const())]
        if isinstance(o, Poly) and not ix:
            return o
        if isinstance(o, Poly):
            raise PyExc('TypeError')
        if isinstance(o, Opaque):
            k = 'opaque:%s[]' % o.name
            if k in self.contracts:
                return self.contracts[k](self, o, ix)
            return Opaque('%s[%s]' % (o.name, ','.join(str(self.vkey(x)) for x in ix)))
        if o is None:
            raise PyExc('TypeError')
        if isinstance(o, Ext) and o.name == 'os.environ':
            raise PyExc('KeyError')      # the environment variables of the package are not set
        raise Undecided('subscript of %r' % (o,))

    def spans(self, segs):
        """(first index, index after the last one, segment) of the segments of a list."""
        lo, out = T.ZERO, []
        for s in segs:
            if s[0] == 'items':
                n = P(len(s[1]))
            elif s[0] == 'seq':
                n = s[1]
            else:
                raise Undecided('element of a composite list')
            out.append((lo, lo + n, s))
            lo = lo + n
        return out

    def composite(self, segs, p):
        """Element p of a list of several segments."""
        spans = self.spans(segs)
        facts = list(T.FACTS)
        c = p.const()
        if c is not None and c < 0 or c is None and not T.entails(facts, p) and T.entails(facts, -p - 1):
            p = spans[-1][1] + p
            c = p.const()
        for lo, hi, s in spans:
            if T.entails(facts, p - lo) and T.entails(facts, hi - 1 - p):
                if s[0] == 'seq':
                    return self.thaw(subst_value(s[3], {s[2]: p - lo}))
                k = (p - lo).const()
                if k is not None:
                    return s[1][int(k)]
                break
        if T.entails(facts, p - spans[-1][1]):
            raise PyExc('IndexError')
        raise Undecided('element of a composite list')

    def composite_slice(self, o, segs, x):
        if x.step is not None and self.num(x.step).const() != 1:
            raise Undecided('slice of a list')
        spans = self.spans(segs)
        total = spans[-1][1]
        facts = list(T.FACTS)

        def bound(t, default):
            if t is None:
                return default
            p = self.num(t)
            if p.const() is not None and p.const() < 0:
                p = total + p
            if T.entails(facts, p) and T.entails(facts, total - p):
                return p
            if T.entails(facts, p - total):
                return total
            raise Undecided('slice of a list')
        lo, hi = bound(x.lo, T.ZERO), bound(x.hi, total)
        out = []
        for a, b, s in spans:
            if T.entails(facts, lo - b) or T.entails(facts, a - hi):
                continue
            first = T.ZERO if T.entails(facts, a - lo) else lo - a
            last = b - a if T.entails(facts, hi - b) else hi - a
            if not (T.entails(facts, first) and T.entails(facts, last - first) and T.entails(facts, b - a - last)):
                raise Undecided('slice of a list')
            if s[0] == 'items':
                if first.const() is None or last.const() is None:
                    raise Undecided('slice of a list')
                out.append(('items', s[1][int(first.const()):int(last.const())]))
            else:
                q = T.fresh('q')
                out.append(('seq', last - first, T.var_name(q), subst_value(s[3], {s[2]: q + first})))
        return ListRef(self.new(Seq(tuple(out))))

    def store(self, o, ix, v, op=None, rhs=None):
        if isinstance(o, Obj) and op is None:
            self.call(self.getattr(o, '__setitem__'), [ix[0] if len(ix) == 1 else tuple(ix), v], {})
            return
        if isinstance(o, Ref):
            if o.cid in self.pinned:
                raise Undecided('store to an array that is also an item of a list')
            if getattr(self.heap[o.cid], 'readonly', False):
                raise Undecided('store to an element of a sequence')
            adv = [k for k, x in enumerate(ix) if isinstance(x, (Ref, ListRef, tuple))]
            if adv:
                return npfun.store_advanced(self, o, ix, v, op, rhs)
            w = self.view(o, ix) if ix else o
            if w is None:
                raise Undecided('store index')
            cell = self.heap[w.cid]
            axes = w.axes or tuple(('ax', j, T.ZERO, 1) for j in range(cell.ndim))
            shape = w.shape if w.axes is not None else cell.shape
            cond = T.ONE
            sub = {}
            for j, ax in enumerate(axes):
                if ax[0] == 'fix':
                    cond = cond * T.bracket_eq(D(j) - ax[1])
                else:
                    st = ax[3]
                    if isinstance(st, int) and st == 1:
                        sub['@%d' % ax[1]] = D(j) - ax[2]
                        if not (ax[2].const() == 0 and same_dim(shape[ax[1]], cell.shape[j])):
                            if ax[2].const() != 0:
                                cond = cond * T.bracket_ge(D(j) - ax[2])
                            if not same_dim(ax[2] + shape[ax[1]], cell.shape[j]):
                                cond = cond * T.bracket_ge(ax[2] + shape[ax[1]] - 1 - D(j))
                    elif isinstance(st, int) and st == -1 and same_dim(shape[ax[1]], cell.shape[j]):
                        sub['@%d' % ax[1]] = ax[2] - D(j)
                    else:
                        raise Undecided('store with a step')
            val = self.arr(v if op is None else rhs)
            # broadcast the value to the view
            if val.ndim > len(shape):
                extra = val.ndim - len(shape)
                if not all(s.const() == 1 for s in val.shape[:extra]):
                    raise PyExc('ValueError')
                val = Arr(val.shape[extra:], T.subst(T.subst(val.expr, {'@%d' % k: T.ZERO for k in range(extra)}),
                                                     {'@%d' % (k + extra): D(k) for k in range(len(shape))}), val.dtype)
            vs = {}
            for j in range(val.ndim):
                k = j + len(shape) - val.ndim
                if val.shape[j].const() == 1 and shape[k].const() != 1:
                    vs['@%d' % j] = T.ZERO
                else:
                    if not same_dim(val.shape[j], shape[k]):
                        raise NoDim('stored shape %r does not fit %r' % (val.shape[j], shape[k]))
                    vs['@%d' % j] = D(k)
            e = T.subst(T.subst(val.expr, vs), sub)
            newval = e
            if cell.dtype in 'bi' and val.dtype in 'fc' and not e.is_int():
                raise Undecided('real number stored in an integer array')
            if cell.dtype == 'f' and val.dtype == 'c' and not e.is_real():
                raise Undecided('complex number stored in a real array')
            if op is None:
                expr = T.ite(cond, newval, cell.expr)
            elif op == 'Add':
                expr = cell.expr + cond * newval
            elif op == 'Sub':
                expr = cell.expr - cond * newval
            else:
                expr = T.ite(cond, scalar_op(op, cell.expr, newval), cell.expr)
            if cell.dtype in 'bi' and op == 'Div':
                raise Undecided('true division in place of integers')
            self.heap[w.cid] = Arr(cell.shape, expr, cell.dtype)
            return
        if isinstance(o, DictRef):
            d = dict(self.heap[o.cid])
            d[dict_key(ix[0])] = v
            self.heap[o.cid] = d
            return
        if isinstance(o, ListRef):
            segs = self.heap[o.cid].segs
            p = self.num(ix[0])
            if p is not None and p.const() is not None and len(segs) == 1 and segs[0][0] == 'items':
                it = list(segs[0][1])
                it[int(p.const())] = v
                self.heap[o.cid] = Seq((('items', tuple(it)),))
                return
            # a list of numbers is an array
            a = self.arr(o)
            r = self.mk(a)
            self.store(r, ix, v)
            b = self.heap[r.cid]
            q = T.fresh('q')
            el = Arr(b.shape[1:], T.subst(T.subst(b.expr, {'@0': q}), {'@%d' % (k + 1): D(k) for k in range(b.ndim - 1)}), b.dtype)
            self.heap[o.cid] = Seq((('seq', b.shape[0], T.var_name(q), el.expr if el.ndim == 0 else el),))
            return
        raise Undecided('store to %r' % (o,))

    # ------------------------------------------------------------------ calls
    def e_Call(self, e):
        f = self.eval(e.func)
        args = self._star(e.args)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value)
                if isinstance(d, DictRef):
                    kw.update(self.heap[d.cid])
                    continue
                raise Undecided('** argument')
            kw[k.arg] = self.eval(k.value)
        return self.call(f, args, kw)

    def qualname(self, f):
        return '%s.%s' % (f.cls or f.module.name, f.name)

    def call(self, f, args, kw):
        if isinstance(f, Bound):
            return self.call(f.func, [f.obj] + list(args), kw)
        if isinstance(f, Func):
            q = self.qualname(f)
            if q in self.contracts:
                self.calls.append(q)
                return self.contracts[q](self, *args, **kw)
            return self.inline(f, args, kw)
        if isinstance(f, Ext):
            if f.name in self.contracts:
                self.calls.append(f.name)
                return self.contracts[f.name](self, *args, **kw)
            fn = npfun.TABLE.get(f.name)
            if fn is not None:
                return fn(self, *args, **kw)
            if f.name.startswith('dynaphopy.'):
                ci = self.class_info(f.name)
                if ci is not None:
                    return self.construct(f.name, ci, args, kw)
            raise Undecided('call of %s' % f.name)
        if isinstance(f, Method):
            return npfun.method(self, f.recv, f.name, args, kw)
        if callable(f):
            return f(self, *args, **kw)
        raise Undecided('call of %r' % (f,))

    def construct(self, name, ci, args, kw):
        o = self.new_obj(name, {})
        if '__init__' in ci.methods:
            self.call(Func(ci.methods['__init__'], ci.module, cls=name), [o] + list(args), kw)
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.args]
        env = {}
        args = list(args)
        if len(args) > len(names) and a.vararg is None:
            raise PyExc('TypeError')
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(names):])
        kwn = dict(kw)
        for k in list(kwn):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = kwn.pop(k)
        if kwn:
            if a.kwarg is None:
                raise PyExc('TypeError')
            env[a.kwarg.arg] = DictRef(self.new(kwn))
        elif a.kwarg is not None:
            env[a.kwarg.arg] = DictRef(self.new({}))
        defs = a.defaults
        for n, d in zip(names[len(names) - len(defs):], defs):
            if n not in env:
                env[n] = self._default(f, d)
        for n, d in zip(a.kwonlyargs, a.kw_defaults):
            if n.arg not in env and d is not None:
                env[n.arg] = self._default(f, d)
        for n in names:
            if n not in env:
                raise PyExc('TypeError', 'missing argument ' + n)
        return env

    def _default(self, f, d):
        saved = self.env
        self.env = {}
        self.module_stack.append(f.module)
        try:
            return self.eval(d)
        finally:
            self.env = saved
            self.module_stack.pop()

    def inline(self, f, args, kw):
        if self.depth > 24:
            raise Undecided('recursion')
        if f.module is not None and f.cls is None and f.env is None:
            self.inlined.add(f.module.name + '.' + f.name)
        env = self.bind_args(f, args, kw)
        if f.env is not None:
            env['$closure'] = f.env
        saved = self.env
        base = None
        self.module_stack.append(f.module)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                self.env = env
                return self.eval(f.node.body)

            def thunk():
                self.env = dict(env)
                if f.env is not None:
                    self.env['$closure'] = f.env
                try:
                    self.block(f.node.body)
                except Return as r:
                    return ('v', r.value)
                return ('v', None)
            base = self.save()
            outs = self.explore(thunk)
            if len(outs) > 1 and all(o.kind == 'next' for o in outs):
                for o in outs:
                    o.value = o.value[1]
                try:
                    if all(o.value is None for o in outs):
                        self._strip(outs)
                        self.merge(outs, base)
                        return None
                    if any(o.value is None for o in outs):
                        raise Undecided('None in some branches')
                    self._strip(outs)
                    return self.merge(outs, base)
                except Undecided:
                    for o in outs:
                        o.value = ('v', o.value)
            if not outs:
                raise Infeasible()
            # fork: one outcome is chosen and its path assumed
            self.restore(base)
            for k, o in enumerate(outs):
                if k == len(outs) - 1 or self.decide(o.cond):
                    pth = self.path
                    fct = list(T.FACTS)
                    self.restore(o.state)
                    if o.kind == 'next':
                        return o.value[1]
                    if o.kind == 'raise':
                        raise o.value
                    if o.kind == 'exit':
                        raise Exit()
                    raise Undecided('outcome ' + o.kind)
        finally:
            self.env = saved
            self.module_stack.pop()
            self.depth -= 1

    def _strip(self, outs):
        """Locals of the callee do not take part in merging."""
        for o in outs:
            o.state = ({},) + o.state[1:]

    def run(self, qual, args, kw=None, cls=None):
        """Executes a function (not by contract) and returns its outcomes."""
        f = self.function(qual)
        self.module_stack.append(f.module)
        try:
            env = self.bind_args(f, args, kw or {})

            def thunk():
                if self.before is not None:
                    self.env = {}
                    self.before()
                self.env = dict(env)
                try:
                    self.block(f.node.body)
                except Return as r:
                    return r.value
                return None
            return self.explore(thunk)
        finally:
            self.module_stack.pop()

    def function(self, qual):
        """Function or method (also 'get:' and 'set:' accessors) of the package by dotted name."""
        kind = None
        if ':' in qual and not qual.startswith('script:'):
            kind, qual = qual.split(':', 1)
        mod, _, name = qual.rpartition('.')
        m = self.src.module(mod) if not mod.startswith('script:') else self.src.script(mod[7:])
        if m is not None and name in m.functions:
            return Func(m.functions[name], m)
        mm, _, cn = mod.rpartition('.')
        m = self.src.module(mm)
        if m is not None and cn in m.classes:
            ci = m.classes[cn]
            t = {'get': ci.getters, 'set': ci.setters}.get(kind, ci.methods)
            if name in t:
                return Func(t[name], m, cls=mod)
        raise Undecided('%s is not defined' % qual)


class ZipV:
    def __init__(self, parts):
        self.parts = parts


class ProductV:
    def __init__(self, parts):
        self.parts = parts


class EnumV:
    def __init__(self, part, start=0):
        self.part, self.start = part, start


class Maybe:
    """A value that is None under a condition."""
    def __init__(self, none, value):
        self.none, self.value = none, value


# ---------------------------------------------------------------------- helpers on values
def map_value(v, f):
    if isinstance(v, Poly):
        return f(v)
    if isinstance(v, Bool):
        return mkbool(f(v.p))
    if isinstance(v, Arr):
        return v.map(f)
    if isinstance(v, tuple):
        return tuple(map_value(x, f) for x in v)
    if isinstance(v, Seq):
        segs = []
        for s in v.segs:
            if s[0] == 'items':
                segs.append(('items', tuple(map_value(x, f) for x in s[1])))
            elif s[0] == 'opt':
                segs.append(('opt', f(s[1]), tuple(map_value(x, f) for x in s[2])))
            elif s[0] == 'seq':
                segs.append(('seq', f(s[1]), s[2], map_value(s[3], f)))
            elif s[0] == 'filt':
                segs.append(('filt', f(s[1]), s[2], f(s[3]), map_value(s[4], f)))
            else:
                segs.append(s)
        return Seq(tuple(segs))
    if isinstance(v, Ptr):
        return Ptr(v.cid, f(v.off))
    if isinstance(v, text.Text):
        return v.map(f)
    if isinstance(v, FrozenDict):
        return FrozenDict({k: map_value(x, f) for k, x in v.d.items()})
    return v


def subst_value(v, sub):
    return map_value(v, lambda p: T.subst(p, sub))


def value_free(v):
    out = set()

    def f(p):
        out.update(p.free)
        return p
    map_value(v, f)
    return out


def _replace_some(p, own, value):
    def g(*ix):
        v = value(*ix)
        return v if v is not None else T.app(own, list(ix), sort[0])
    sort = ['r']
    for mono in p.m:
        for a, e in mono:
            if a.kind == 'app' and a.data[0] == own:
                sort[0] = a.sort
    return T.replace_app(p, own, g)


def _linear(e, is_own, own):
    """(alpha, beta) with e = alpha * own + beta, own not in alpha, beta; None when not of this form."""
    alpha, beta = T.ZERO, T.ZERO
    for mono, c in e.m.items():
        hit = [(a, x) for a, x in mono if is_own(a)]
        if len(hit) == 1 and hit[0][1] == 1:
            rest = Poly({tuple(x for x in mono if x is not hit[0]): c}) if True else None
            rest = Poly({tuple((a, x) for a, x in mono if not is_own(a)): c})
            if own in rest.free:
                return None
            alpha = alpha + rest
        elif hit:
            return None
        else:
            t = Poly({mono: c})
            if own in t.free:
                return None
            beta = beta + t
    return alpha, beta


def push_eq(p):
    """Uses each bracket [x == e] of a product to rewrite the other factors."""
    r = T.ZERO
    for mono, c in p.m.items():
        t = Poly({mono: c})
        eqs = [a for a, e in mono if a.kind == 'iv' and a.data[0] == 'eq']
        for a in eqs:
            q = a.data[1]
            names = sorted(q.free, key=lambda n: (0 if '#' in n else 1, n.startswith('@') and 1 or 0, n))
            done = False
            for nm in names:
                if nm not in {x.data for mono2 in q.m for x, e2 in mono2 if x.kind == 'var'}:
                    continue
                s = T._solve_for(q, {nm})
                if s is not None:
                    rest = Poly({tuple((x, e) for x, e in mono if x is not a): c}) if a in [x for x, e in mono] else None
                    if rest is None:
                        break
                    others = T.ZERO
                    tt = T.ZERO
                    for m2, c2 in t.m.items():
                        if any(x is a for x, e in m2):
                            o = Poly({tuple((x, e) for x, e in m2 if x is not a): c2})
                            tt = tt + P(a) * T.subst(o, {s[0]: s[1]})
                        else:
                            tt = tt + Poly({m2: c2})
                    t = tt
                    done = True
                    break
        r = r + t
    return r


def product(alpha, iname, j):
    lam = T.subst(alpha, {iname: T.var('_l0', 'i')})
    return T.fun('prod', j, lam, sort='c' if not lam.is_real() else 'r')


def scalar_op(op, x, y):
    if op == 'Add':
        return x + y
    if op == 'Sub':
        return x - y
    if op == 'Mult':
        return x * y
    if op == 'Div':
        return x / y
    if op == 'FloorDiv':
        return T.floor(x / y)
    if op == 'Mod':
        return x - y * T.floor(x / y)
    if op == 'Pow':
        c = y.const()
        if c is None:
            b = x.const()
            if y.is_real() and not y.is_int():
                return T.fun('pow', x, y, sort='r' if x.is_real() else 'c')
            return T.fun('pow', x, y, sort='i' if x.is_int() else ('r' if x.is_real() else 'c'))
        if c == F(1, 2):
            return T.sqrt(x)
        return T.power(x, c)
    raise Undecided('operator ' + op)


def scalar_cmp(op, x, y):
    if op == 'Eq':
        c = T.eq(x, y)
    elif op == 'NotEq':
        c = T.neg(T.eq(x, y))
    elif op == 'Lt':
        c = T.lt(x, y)
    elif op == 'Gt':
        c = T.lt(y, x)
    elif op == 'LtE':
        c = T.ge(y, x)
    elif op == 'GtE':
        c = T.ge(x, y)
    else:
        raise Undecided('comparison ' + op)
    k = c.const()
    return c if k is None else bool(k)
