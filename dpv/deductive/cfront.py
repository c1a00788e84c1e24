"""The C kernels: the syntax tree that clang makes of c/*.c, executed symbolically with the loop summaries of sym.py.

What the extraction drops: machine integers and doubles are mathematical numbers; malloc succeeds; the CPython and NumPy
functions do what their contracts below say.  Every memory access, every free and every loop run in parallel generates a
safety obligation (kept in Interp.vcs)."""
import bisect, json, os, re, shutil, subprocess
from fractions import Fraction as F
from dpv.deductive import terms as T, smt
from dpv.deductive.terms import P, Poly, Undecided
from dpv.deductive.values import *
from dpv.deductive.sym import Interp, Return, Break, Continue, Infeasible, Outcome, push_eq, _linear

STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cstubs')
SIZES = {'double': 8, '_Complex double': 16, 'double _Complex': 16, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'char': 1, 'npy_intp': 8, 'npy_double': 8,
         'long long': 8, 'float': 4, 'size_t': 8, '_Dcomplex': 16}


class CFile:
    """Functions and file-level variables of one C file."""

    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[:-2]
        self.text = open(path, errors='replace').read()
        self.starts = [0] + [m.end() for m in re.finditer('\n', self.text)]
        clang = shutil.which('clang-18') or shutil.which('clang')
        if clang is None:
            raise Undecided('clang is not installed')
        r = subprocess.run([clang, '-fopenmp', '-std=c99', '-w', '-I' + STUBS, '-Xclang', '-ast-dump=json', '-fsyntax-only', path], capture_output=True, text=True)
        try:
            tree = json.loads(r.stdout)
        except ValueError:
            raise Undecided('clang gives no syntax tree of %s: %s' % (path, r.stderr[:300]))
        if r.returncode != 0:
            raise Undecided('clang does not parse %s: %s' % (path, r.stderr[:300]))
        self.functions, self.globals = {}, {}
        inside = False
        for n in tree.get('inner', []):
            # the declarations of the file itself come after the headers
            loc = n.get('loc', {})
            src = loc.get('file') or loc.get('expansionLoc', {}).get('file') or loc.get('spellingLoc', {}).get('file')
            if src is not None:
                inside = os.path.basename(src) == os.path.basename(path)
            if n.get('kind') == 'FunctionDecl' and any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])):
                if inside:
                    self.functions[n['name']] = n
            elif n.get('kind') == 'VarDecl' and inside:
                self.globals[n['id']] = n

    def line(self, node):
        for key in ('begin', 'end'):
            b = node.get('range', {}).get(key, {})
            b = b.get('expansionLoc', b)
            if 'offset' in b:
                return bisect.bisect_right(self.starts, b['offset'])
        return 0

    def lines(self, node):
        """The source text of the line a node starts in."""
        k = self.line(node)
        s = self.text[self.starts[k - 1]:]
        out = ''
        for l in s.split('\n'):
            out += l
            if not l.rstrip().endswith('\\'):
                break
        return out


class Uninit:
    """A table of pointers or numbers of which nothing has been written."""


class Freed:
    def __init__(self, was):
        self.was = was


FREED = Freed(None)


class CContract:
    """Marks a contract value of the interpreter."""


def ctype(node):
    t = node.get('type', {})
    return (t.get('desugaredQualType') or t.get('qualType') or '').replace('const ', '').replace('static ', '').strip()


def pointee(t):
    t = t.strip()
    while t.endswith('const') or t.endswith('restrict'):
        t = t.rsplit(None, 1)[0] if ' ' in t else t[:-5]
        t = t.strip()
    m = re.match(r'(.*?)\s*\[\d*\]$', t)
    if m:
        return m.group(1).strip()
    if t.endswith('*'):
        return t[:-1].strip()
    return None


def sizeof(t):
    t = t.strip()
    if t.endswith('*'):
        return 8
    if t in SIZES:
        return SIZES[t]
    raise Undecided('size of ' + t)


def sort_of(t):
    return {'double': 'r', 'float': 'r', 'npy_double': 'r', '_Complex double': 'c', 'double _Complex': 'c', '_Dcomplex': 'c'}.get(t, 'i')


class RawMem:
    def __init__(self, size, zero=False):
        self.size, self.zero = size, zero


class VarPtr:
    def __init__(self, key):
        self.key = key


def children(n):
    return n.get('inner', [])


class CInterp(Interp):
    def __init__(self, cfile, contracts=None, arrays=None):
        Interp.__init__(self, None, contracts)
        self.f = cfile
        self.vcs = []
        self.mallocs = {}
        self.names = {}
        self.bases = {}
        self.elt = {}
        self.invariants = []
        self.inputs = {}
        self.safety = False
        self.owned = None
        self.pyargs = {}

    # ------------------------------------------------------------------ obligations
    def vc(self, kind, node, cond, detail=''):
        """Safety obligation: every term of the list cond is >= 0 (or cond is a truth value)."""
        ok = True
        if isinstance(cond, bool):
            ok = cond
        else:
            for p in cond:
                p = P(p)
                k = p.const()
                if k is not None:
                    good = k >= 0
                else:
                    good = T.nonneg(p) or T.entails(list(T.FACTS), p)
                    if not good:
                        good = bool(smt.prove(list(T.FACTS), self.path, T.bracket_ge(p))[0])
                if not good:
                    ok = False
                    detail = '%.200r is not known to be >= 0 %s' % (p, detail)
        self.vcs.append({'kind': kind, 'line': self.f.line(node), 'ok': ok, 'detail': detail})
        return ok

    # ------------------------------------------------------------------ statements
    def cblock(self, stmts):
        for s in stmts:
            self.cstmt(s)

    def cstmt(self, s):
        k = s.get('kind')
        m = getattr(self, 'S_' + str(k), None)
        if m is not None:
            return m(s)
        if k is None:
            return
        self.ev(s)

    def S_CompoundStmt(self, s):
        self.cblock(children(s))

    def S_NullStmt(self, s):
        pass

    def S_DeclStmt(self, s):
        for d in children(s):
            if d.get('kind') == 'VarDecl':
                self.declare(d)

    def key(self, d):
        return '%s@%s' % (d.get('name'), d['id'])

    def declare(self, d):
        t = ctype(d)
        init = [c for c in children(d) if 'kind' in c and not c['kind'].endswith('Attr')]
        self.names[self.key(d)] = d.get('name')
        m = re.match(r'(.*)\[(\d*)\]$', t)
        if m and not d.get('name', '').startswith('kwlist') and 'char' not in t:
            e = m.group(1).strip()
            n = int(m.group(2)) if m.group(2) else len(children(init[0]))
            cid = self.new(Arr((n,), self.undef(sort_of(e)), {'r': 'f', 'c': 'c', 'i': 'i'}[sort_of(e)]))
            self.elt[cid] = e
            if init and init[0]['kind'] == 'InitListExpr':
                for j, c in enumerate(children(init[0])):
                    self.write(cid, P(j), self.ev(c), d)
            self.env[self.key(d)] = Ptr(cid, P(0))
            return
        if init:
            if 'char' in t:
                self.env[self.key(d)] = self.strings(init[0])
                return
            v = self.ev(init[0])
            self.env[self.key(d)] = self.to_type(v, t, d)
        else:
            self.env[self.key(d)] = UNDEF

    def strings(self, n):
        if n.get('kind') == 'StringLiteral':
            return json.loads(n['value']) if n['value'].startswith('"') else n['value']
        if n.get('kind') == 'InitListExpr':
            out = []
            for c in children(n):
                out.append(self.strings(c))
            return tuple(out)
        if children(n):
            return self.strings(children(n)[0])
        return None

    def undef(self, sort):
        return T.app('UNDEF#%d' % next(T._fresh), [D(0)], sort)

    def S_ReturnStmt(self, s):
        c = children(s)
        raise Return(self.num0(self.ev(c[0])) if c else None)

    def S_BreakStmt(self, s):
        raise Break()

    def S_ContinueStmt(self, s):
        raise Continue()

    def S_IfStmt(self, s):
        c = children(s)
        test, then = c[0], c[1]
        other = c[2] if len(c) > 2 else None
        v = self.truth_of(self.ev(test))
        if isinstance(v, bool):
            if v:
                self.cstmt(then)
            elif other is not None:
                self.cstmt(other)
            return
        k = self.known(v)
        if k is not None:
            if k:
                self.cstmt(then)
            elif other is not None:
                self.cstmt(other)
            return
        base = self.save()
        ok = None
        mark = len(self.vcs)
        try:
            outs = []
            for cc, body in ((v, then), (T.neg(v), other)):
                self.restore(base)
                try:
                    self.assume(cc)
                except Infeasible:
                    continue
                sub = self.explore(lambda: self.cstmt(body) if body is not None else None)
                for o in sub:
                    o.conds = (cc,) + tuple(o.conds)
                outs += sub
            if all(o.kind == 'next' for o in outs):
                self.merge(outs, base)
                ok = self.save()
        except Undecided:
            ok = None
        if ok is not None:
            self.restore((ok[0], ok[1], base[2] if len(outs) > 1 else ok[2], 0, base[4] if len(outs) > 1 else ok[4], ok[5]))
            return
        del self.vcs[mark:]
        self.restore(base)
        if self.decide(v):
            self.cstmt(then)
        elif other is not None:
            self.cstmt(other)

    def S_SwitchStmt(self, s):
        c = children(s)
        v = self.num0(self.ev(c[0]))
        flat = []

        def add(st, labels):
            if st.get('kind') == 'CaseStmt':
                cs = children(st)
                labels = labels + [self.num0(self.ev(cs[0]))]
                return add(cs[-1], labels)
            if st.get('kind') == 'DefaultStmt':
                return add(children(st)[0], labels + ['default'])
            flat.append((labels, st))
        for st in (children(c[1]) if c[1]['kind'] == 'CompoundStmt' else [c[1]]):
            add(st, [])
        start = None
        for k, (labels, st) in enumerate(flat):
            for l in labels:
                if l == 'default' or start is not None:
                    continue
                e = T.eq(v, l)
                kk = e.const()
                if kk is None:
                    kk = self.decide(e)
                if kk:
                    start = k
        if start is None:
            for k, (labels, st) in enumerate(flat):
                if 'default' in labels:
                    start = k
        if start is None:
            return
        try:
            for labels, st in flat[start:]:
                self.cstmt(st)
        except Break:
            pass

    def S_OMPParallelForDirective(self, s):
        # clause names are not in the tree: they are read from the pragma line
        text = self.f.lines(s)
        m = re.search(r'#\s*pragma\s+omp\s+(.*)', text)
        if not m:
            raise Undecided('parallel directive without a readable pragma')
        clauses = dict(re.findall(r'(\w+)\s*\(([^)]*)\)', m.group(1)))
        known = {'default', 'private', 'shared', 'schedule', 'num_threads', 'firstprivate', 'lastprivate'}
        bad = set(clauses) - known
        if bad or 'lastprivate' in clauses:
            raise Undecided('clauses %s of a parallel loop' % ', '.join(sorted(bad or {'lastprivate'})))
        private = {x.strip() for x in clauses.get('private', '').split(',') if x.strip()}
        first = {x.strip() for x in clauses.get('firstprivate', '').split(',') if x.strip()}
        loop = self.find_loop(s)
        if loop is None:
            raise Undecided('parallel directive without a loop')
        self.for_loop(loop, private=private, firstprivate=first, parallel=True)

    S_OMPParallelForSimdDirective = S_OMPParallelForDirective

    def S_OMPForDirective(self, s):
        raise Undecided('omp for inside a parallel region')

    def find_loop(self, n):
        if n.get('kind') == 'ForStmt':
            return n
        for c in children(n):
            r = self.find_loop(c)
            if r is not None:
                return r
        return None

    # ------------------------------------------------------------------ loops
    def assigned(self, n, out=None):
        """Ids of the variables a tree may write."""
        out = set() if out is None else out
        k = n.get('kind')
        if k == 'BinaryOperator' and n.get('opcode') == '=' or k == 'CompoundAssignOperator' or k == 'UnaryOperator' and n.get('opcode') in ('++', '--', '&'):
            t = self.strip(children(n)[0])
            if t.get('kind') == 'DeclRefExpr':
                out.add(t['referencedDecl']['id'])
        for c in children(n):
            self.assigned(c, out)
        return out

    def refs(self, n, out=None):
        out = set() if out is None else out
        if n.get('kind') == 'DeclRefExpr':
            out.add(n['referencedDecl']['id'])
        for c in children(n):
            self.refs(c, out)
        return out

    def has(self, n, kinds):
        return n.get('kind') in kinds or any(self.has(c, kinds) for c in children(n))

    def strip(self, n):
        while n.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr', 'ConstantExpr') and children(n):
            n = children(n)[0]
        return n

    def S_ForStmt(self, s):
        self.for_loop(s)

    def for_loop(self, s, private=(), firstprivate=(), parallel=False):
        c = children(s)
        if len(c) != 5:
            raise Undecided('for statement (line %d)' % self.f.line(s))
        init, _, test, inc, body = c
        if not test or not inc or 'kind' not in test or 'kind' not in inc:
            return self.while_like(s, init, test, inc, body)
        if 'kind' in init:
            self.cstmt(init)
        # direction and bounds
        inc_ = self.strip(inc)
        var = None
        if inc_['kind'] == 'UnaryOperator' and inc_['opcode'] in ('++', '--'):
            var = self.strip(children(inc_)[0])
            step = P(1 if inc_['opcode'] == '++' else -1)
        elif inc_['kind'] == 'CompoundAssignOperator' and inc_['opcode'] in ('+=', '-='):
            var = self.strip(children(inc_)[0])
            step = self.num0(self.ev(children(inc_)[1]))
            if inc_['opcode'] == '-=':
                step = -step
            stepn = children(inc_)[1]
        elif inc_['kind'] == 'BinaryOperator' and inc_['opcode'] == '=':
            var = self.strip(children(inc_)[0])
            rhs = self.strip(children(inc_)[1])
            step = None
            if rhs['kind'] == 'BinaryOperator' and rhs['opcode'] in ('+', '-'):
                a, b = children(rhs)
                if self.strip(a).get('kind') == 'DeclRefExpr' and self.strip(a)['referencedDecl']['id'] == var.get('referencedDecl', {}).get('id'):
                    step = self.num0(self.ev(b)) * (1 if rhs['opcode'] == '+' else -1)
                elif rhs['opcode'] == '+' and self.strip(b).get('kind') == 'DeclRefExpr' and self.strip(b)['referencedDecl']['id'] == var.get('referencedDecl', {}).get('id'):
                    step = self.num0(self.ev(a))
            if step is None:
                var = None
        test_ = self.strip(test)
        if var is None or var.get('kind') != 'DeclRefExpr' or test_.get('kind') != 'BinaryOperator' or test_['opcode'] not in ('<', '<=', '>', '>=', '!='):
            return self.while_like(s, {}, test, inc, body)
        vid = var['referencedDecl']['id']
        key = '%s@%s' % (var['referencedDecl'].get('name'), vid)
        a, b = children(test_)
        op = test_['opcode']
        if self.strip(b).get('kind') == 'DeclRefExpr' and self.strip(b)['referencedDecl']['id'] == vid:
            a, b = b, a
            op = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '!=': '!='}[op]
        if not (self.strip(a).get('kind') == 'DeclRefExpr' and self.strip(a)['referencedDecl']['id'] == vid):
            return self.while_like(s, {}, test, inc, body)
        written = self.assigned(body)
        lo = self.num0(self.env.get(key, UNDEF))
        bound = self.num0(self.ev(b))
        sgn = step.const()
        up = sgn is not None and sgn > 0 or T.entails(list(T.FACTS), step - 1)
        down = sgn is not None and sgn < 0
        simple = vid not in written and not (self.refs(b) & written) and not self.has(b, ('CallExpr',)) and (up or down)
        if simple and self.has(b, ('ArraySubscriptExpr',)) :
            simple = False
        if inc_['kind'] != 'UnaryOperator' and simple and self.refs(inc_) & written:
            simple = False
        if not simple or (up and op not in ('<', '<=', '!=')) or (down and op not in ('>', '>=', '!=')):
            return self.while_like(s, {}, test, inc, body)
        if op == '!=' and not (sgn in (1, -1) and T.entails(list(T.FACTS), (bound - lo) * sgn)):
            return self.while_like(s, {}, test, inc, body)
        if up:
            hi = bound + (1 if op == '<=' else 0)
            n = hi - lo
            if sgn != 1:
                n = T.floor((n + step - 1) / step)
        else:
            hi = bound - (1 if op == '>=' else 0)
            n = lo - hi
            if sgn != -1:
                n = T.floor((n - step - 1) / (-step))
        declared_outside = 'kind' in init and init['kind'] != 'DeclStmt' or 'kind' not in init
        nc = n.const()
        if nc is not None and nc <= 64 and not parallel:
            for k in range(max(int(nc), 0)):
                self.env[key] = lo + step * k
                try:
                    self.cstmt(body)
                except Break:
                    return
                except Continue:
                    pass
            self.env[key] = lo + step * max(int(nc), 0)
            return

        def bind(i):
            v = lo + step * i
            self.env[key] = v
            if up:
                T.FACTS.append(hi - 1 - v)
            else:
                T.FACTS.append(v - hi - 1)
            T.FACTS.append((v - lo) if up else (lo - v))
            for k in list(self.env):
                nm = self.names.get(k, k.split('@')[0])
                if nm in private:
                    self.env[k] = UNDEF

        def run():
            before = set(self.heap)
            self.cstmt(body)
            for cid in set(self.heap) - before:
                if cid in self.mallocs and not isinstance(self.heap[cid], Freed):
                    self.vc('released', body, False, 'memory allocated at line %d in a loop is not released in the iteration' % self.mallocs[cid])
        inv = None
        for candidate in self.invariants:
            inv = candidate(self, s, n, lo, step, key)
            if inv is not None:
                break
        if inv is not None:
            inv(bind, run)
            return
        saved_var = self.env.get(key, UNDEF)
        self.env.pop(key, None)
        self.privates = None
        self.loop(n, bind, run, {'lineno': self.f.line(s)})
        if parallel:
            self.independent(s, private | set(firstprivate), key)
        for k in list(self.env):
            if self.names.get(k, k.split('@')[0]) in private:
                self.env[k] = UNDEF
        if declared_outside:
            if T.entails(list(T.FACTS), n):
                self.env[key] = lo + step * n
            else:
                self.env[key] = lo + step * T.ite(T.ge(n, 0), n, 0)

    def independent(self, s, private, key):
        """Obligation of a parallel loop: iterations write different locations and read nothing another iteration writes."""
        carried, afters, i = self.last_loop
        iname = T.var_name(i)
        for l, ph in carried.items():
            if l[0] == 'env':
                nm = self.names.get(l[1], l[1].split('@')[0])
                if l[1] == key or nm in private:
                    continue
                self.vc('no race', s, False, 'the shared variable %s is written by every iteration' % nm)
                continue
            after = afters[l]
            ok = False
            if ph.get('kind') == 'arr' and isinstance(after, Arr):
                own = ph['name']
                e = push_eq(after.expr)
                here = (D(0).key,)
                r = _linear(e, lambda a: a.kind == 'app' and a.data[0] == own and tuple(x.key for x in a.data[1]) == here and not a.data[2], own)
                if r is not None:
                    alpha, beta = r
                    others = {p['name'] for k, p in carried.items() if k != l and 'name' in p and p.get('kind') in ('arr', 'num')}
                    reads = beta.free & others or alpha.free & others
                    ok = not reads and self._unique_write(T.ONE - T.merge_complements(T.resolve(alpha)), beta, iname) is not None
            self.vc('no race', s, ok, '' if ok else 'iterations may touch the same element of a shared array')
        if not any(l[0] != 'env' for l in carried):
            self.vc('no race', s, True)

    def while_like(self, s, init, test, inc, body):
        if init and 'kind' in init:
            self.cstmt(init)
        n = 0
        while True:
            if test and 'kind' in test:
                c = self.truth_of(self.ev(test))
                if not isinstance(c, bool):
                    k = self.known(c)
                    if k is None:
                        raise Undecided('loop on an undecided condition (line %d)' % self.f.line(s))
                    c = k
                if not c:
                    return
            n += 1
            if n > 64:
                raise Undecided('long loop (line %d)' % self.f.line(s))
            try:
                self.cstmt(body)
            except Break:
                return
            except Continue:
                pass
            if inc and 'kind' in inc:
                self.ev(inc)

    def S_WhileStmt(self, s):
        c = children(s)
        self.while_like(s, {}, c[0], {}, c[-1])

    def S_DoStmt(self, s):
        body, test = children(s)[:2]
        try:
            self.cstmt(body)
        except Break:
            return
        except Continue:
            pass
        self.while_like(s, {}, test, {}, body)

    # ------------------------------------------------------------------ expressions
    def ev(self, n):
        m = getattr(self, 'E_' + n.get('kind', ''), None)
        if m is None:
            raise Undecided('C construct %s (line %d)' % (n.get('kind'), self.f.line(n)))
        return m(n)

    def num0(self, v):
        """A value as it is passed on: conditions become numbers."""
        if isinstance(v, Bool):
            return v.p
        if isinstance(v, bool):
            return P(int(v))
        if v is UNDEF:
            raise Undecided('an uninitialised variable is read')
        return v

    def numeric(self, v):
        v = self.num0(v)
        if not isinstance(v, Poly):
            raise Undecided('number expected: %r' % (v,))
        return v

    def truth_of(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Bool):
            k = v.p.const()
            return bool(k) if k is not None else v.p
        if isinstance(v, Ptr):
            return v.cid is not None
        if isinstance(v, Obj):
            return True
        if v is None:
            return False
        v = self.numeric(v)
        k = v.const()
        if k is not None:
            return k != 0
        return T.neg(T.eq(v, 0))

    def E_ParenExpr(self, n):
        return self.ev(children(n)[0])

    E_ConstantExpr = E_ParenExpr

    def E_IntegerLiteral(self, n):
        return P(int(n['value']))

    def E_CharacterLiteral(self, n):
        return P(int(n['value']))

    def E_FloatingLiteral(self, n):
        v = n['value']
        if float(v) == 3.1415926535897931:
            return T.PI
        return P(F(repr(float(v))))

    def E_ImaginaryLiteral(self, n):
        return T.I * self.ev(children(n)[0])

    def E_StringLiteral(self, n):
        return self.strings(n)

    def E_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') != 'sizeof':
            raise Undecided(str(n.get('name')))
        if 'argType' in n:
            t = n['argType'].get('desugaredQualType') or n['argType']['qualType']
        else:
            t = ctype(children(n)[0])
        return P(sizeof(t))

    def lvalue(self, n):
        n0 = n
        while n.get('kind') == 'ParenExpr':
            n = children(n)[0]
        k = n.get('kind')
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            return ('var', '%s@%s' % (d.get('name'), d['id']), ctype(n))
        if k == 'ArraySubscriptExpr':
            a, b = children(n)
            p, i = self.ev(a), self.ev(b)
            if not isinstance(p, Ptr) and isinstance(i, Ptr):
                p, i = i, p
            if not isinstance(p, Ptr):
                if isinstance(p, tuple):
                    return ('val', p[int(self.numeric(i).const())])
                raise Undecided('subscript of %r (line %d)' % (p, self.f.line(n0)))
            return ('mem', p.cid, p.off + self.numeric(i), ctype(n))
        if k == 'UnaryOperator' and n.get('opcode') == '*':
            p = self.ev(children(n)[0])
            if isinstance(p, VarPtr):
                return ('var', p.key, ctype(n))
            if not isinstance(p, Ptr):
                raise Undecided('dereference of %r' % (p,))
            return ('mem', p.cid, p.off, ctype(n))
        if k == 'UnaryOperator' and n.get('opcode') in ('__real', '__imag'):
            raise Undecided('assignment to a part of a complex number')
        raise Undecided('lvalue %s (line %d)' % (k, self.f.line(n0)))

    def load(self, lv, node):
        if lv[0] == 'val':
            return lv[1]
        if lv[0] == 'var':
            if lv[1] in self.env:
                return self.env[lv[1]]
            d = self.f.globals.get(lv[1].split('@')[1])
            if d is not None:
                if 'char' in ctype(d):
                    return self.strings([c for c in children(d)][0])
                if 'PyExc' in (d.get('name') or ''):
                    return Opaque(d['name'])
            if lv[1].split('@')[0].startswith('PyExc') or lv[1].split('@')[0] == 'Py_None':
                return Opaque(lv[1].split('@')[0])
            raise Undecided('variable %s' % lv[1])
        _, cid, off, t = lv
        return self.read(cid, off, node)

    def access(self, cid, off, node, what):
        if cid is None:
            self.vc(what, node, False, 'through a null pointer')
            raise Undecided('access through a null pointer (line %d)' % self.f.line(node))
        c = self.heap.get(cid)
        if isinstance(c, Freed):
            self.vc(what, node, False, 'of released memory')
            raise Undecided('access of released memory (line %d)' % self.f.line(node))
        if isinstance(c, dict):
            n = P(c['$n'])
        else:
            n = c.shape[0]
        if not self.vc(what, node, [off, n - 1 - off], 'for index %.80r of %.80r' % (off, n)) and n.const() is not None and off.const() is not None:
            raise Undecided('access outside the allocation (line %d)' % self.f.line(node))
        return c

    def read(self, cid, off, node):
        c = self.access(cid, off, node, 'read in bounds')
        if isinstance(c, dict):
            k = off.const()
            if k is None:
                raise Undecided('table of pointers read at an undecided index (line %d)' % self.f.line(node))
            v = c.get(int(k), UNDEF)
            if v is UNDEF:
                raise Undecided('uninitialised pointer (line %d)' % self.f.line(node))
            return v
        if cid in self.bases:
            return Ptr(self.bases[cid], c.at(off))
        return c.at(off)

    def write(self, cid, off, v, node):
        c = self.access(cid, off, node, 'write in bounds')
        if isinstance(c, dict):
            k = off.const()
            if k is None:
                raise Undecided('table of pointers written at an undecided index (line %d)' % self.f.line(node))
            d = dict(c)
            d[int(k)] = v
            self.heap[cid] = d
            return
        if isinstance(v, Ptr):
            if self.bases.setdefault(cid, v.cid) != v.cid:
                raise Undecided('a table of symbolic length holds pointers into different blocks')
            v = v.off
        v = self.numeric(v)
        sort = sort_of(self.elt.get(cid, 'double'))
        if sort == 'r' and not v.is_real():
            raise Undecided('complex number stored in a real array (line %d)' % self.f.line(node))
        b = T.bracket_eq(D(0) - off)
        self.heap[cid] = Arr(c.shape, b * v + (T.ONE - b) * c.expr, c.dtype)

    def assign_lv(self, lv, v, node):
        if lv[0] == 'var':
            self.env[lv[1]] = self.to_type(v, lv[2], node)
            return self.env[lv[1]]
        if lv[0] == 'mem':
            v = self.to_type(v, lv[3], node)
            self.write(lv[1], lv[2], v, node)
            return v
        raise Undecided('assignment')

    def to_type(self, v, t, node):
        """The value as an object of a pointer type (raw memory gets its element type) or a number."""
        if isinstance(v, RawMem):
            e = pointee(t)
            if e is None or e == 'void':
                return v
            n = v.size / sizeof(e)
            if not n.is_int():
                n = T.floor(n)
            self.vc('allocation', node, [n], 'size of the allocation')
            if e.endswith('*'):
                k = n.const()
                if k is not None:
                    cid = self.new({'$n': int(k)})
                else:
                    cid = self.new(Arr((n,), self.undef('i'), 'i'))
            else:
                s = sort_of(e)
                cid = self.new(Arr((n,), T.ZERO if v.zero else self.undef(s), {'r': 'f', 'c': 'c', 'i': 'i'}[s]))
            self.elt[cid] = e
            self.mallocs[cid] = self.f.line(node)
            return Ptr(cid, P(0))
        if isinstance(v, (bool, Bool)):
            return self.num0(v)
        return v

    def E_DeclRefExpr(self, n):
        d = n['referencedDecl']
        if d.get('kind') == 'FunctionDecl':
            return ('function', d.get('name'))
        if d.get('kind') == 'EnumConstantDecl':
            vals = {'NPY_DOUBLE': 12, 'NPY_CDOUBLE': 15, 'NPY_INT': 5, 'NPY_LONG': 7, 'NPY_FLOAT': 11, 'NPY_CFLOAT': 14, 'NPY_BOOL': 0}
            return P(vals.get(d.get('name'), 0x101 if 'OUT' not in d.get('name', '') and 'COPY' not in d.get('name', '') else 0x501))
        return self.load(self.lvalue(n), n)

    def E_ArraySubscriptExpr(self, n):
        return self.load(self.lvalue(n), n)

    def E_ImplicitCastExpr(self, n):
        k = n.get('castKind')
        c = children(n)[0]
        if k == 'LValueToRValue':
            v = self.load(self.lvalue(c), c) if c.get('kind') in ('DeclRefExpr', 'ArraySubscriptExpr', 'UnaryOperator', 'ParenExpr') else self.ev(c)
            return self.num0(v)
        if k == 'ArrayToPointerDecay':
            return self.ev(c)
        v = self.ev(c)
        t = ctype(n)
        if k in ('NoOp', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'ToVoid'):
            return v
        if k == 'BitCast':
            if isinstance(v, Ptr) and v.cid is not None:
                e = pointee(t)
                was = self.elt.get(v.cid)
                if e not in (None, 'void') and was is not None and sizeof(e) != sizeof(was):
                    raise Undecided('pointer conversion %s to %s' % (was, e))
                return v
            return self.to_type(v, t, n)
        if k == 'NullToPointer':
            return Ptr(None, P(0))
        if k in ('IntegralCast',):
            v = self.numeric(v)
            if 'unsigned' in t or t == 'size_t':
                if not (T.nonneg(v) or T.entails(list(T.FACTS), v)):
                    self.vc('conversion', n, [v], 'to an unsigned type')
            return v
        if k in ('IntegralToFloating', 'FloatingCast', 'FloatingRealToComplex', 'IntegralRealToComplex', 'FloatingComplexCast'):
            if k == 'FloatingCast' and t == 'float':
                raise Undecided('single precision')
            return self.numeric(v)
        if k == 'FloatingToIntegral':
            return self.trunc(self.numeric(v))
        if k == 'FloatingComplexToReal':
            return T.re(self.numeric(v))
        if k in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            t = self.truth_of(v)
            return t if isinstance(t, bool) else Bool(t)
        raise Undecided('conversion %s' % k)

    E_CStyleCastExpr = E_ImplicitCastExpr

    def trunc(self, v):
        if v.is_int():
            return v
        c = v.const()
        if c is not None:
            return P(int(c))
        if T.nonneg(v) or T.entails(list(T.FACTS), v):
            return T.floor(v)
        return T.ite(T.ge(v, 0), T.floor(v), -T.floor(-v))

    def E_UnaryOperator(self, n):
        op = n['opcode']
        c = children(n)[0]
        if op in ('++', '--'):
            lv = self.lvalue(c)
            v = self.load(lv, c)
            if isinstance(v, Ptr):
                new = Ptr(v.cid, v.off + (1 if op == '++' else -1))
            else:
                new = self.numeric(v) + (1 if op == '++' else -1)
            self.assign_lv(lv, new, n)
            return v if n.get('isPostfix') else new
        if op == '&':
            lv = self.lvalue(c)
            if lv[0] == 'var':
                v = self.env.get(lv[1], UNDEF)
                return VarPtr(lv[1])
            return Ptr(lv[1], lv[2])
        if op == '*':
            return self.load(self.lvalue(n), n)
        v = self.ev(c)
        if op == '!':
            t = self.truth_of(v)
            return (not t) if isinstance(t, bool) else Bool(T.neg(t))
        if op == '-':
            return -self.numeric(v)
        if op == '+':
            return self.numeric(v)
        if op == '__real':
            return T.re(self.numeric(v))
        if op == '__imag':
            return T.im(self.numeric(v))
        if op == '~' and False:
            return None
        raise Undecided('operator ' + op)

    def arith(self, op, a, b, node):
        t = ctype(node)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == '+':
                return Ptr(a.cid, a.off + self.numeric(b)) if isinstance(a, Ptr) else Ptr(b.cid, b.off + self.numeric(a))
            if op == '-' and not isinstance(b, Ptr):
                return Ptr(a.cid, a.off - self.numeric(b))
            raise Undecided('pointer arithmetic')
        if isinstance(a, RawMem) or isinstance(b, RawMem):
            raise Undecided('arithmetic on untyped memory')
        a, b = self.numeric(a), self.numeric(b)
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        integer = not ('double' in t or 'float' in t or 'Complex' in t or 'complex' in t)
        if op == '/':
            if not integer:
                return a / b
            return self.trunc_div(a, b)
        if op == '%':
            return a - b * self.trunc_div(a, b)
        raise Undecided('operator ' + op)

    def trunc_div(self, a, b):
        ca, cb = a.const(), b.const()
        if ca is not None and cb is not None:
            if cb == 0:
                raise Undecided('division by zero')
            q = abs(int(ca)) // abs(int(cb))
            return P(q if (ca >= 0) == (cb > 0) else -q)
        nn = lambda x: T.nonneg(x) or T.entails(list(T.FACTS), x)
        if nn(a) and nn(b):
            return T.floordiv(a, b)
        return self.trunc(a / b)

    def E_BinaryOperator(self, n):
        op = n['opcode']
        a, b = children(n)
        if op == '=':
            v = self.ev(b)
            lv = self.lvalue(a)
            return self.assign_lv(lv, self.num0(v) if not isinstance(v, RawMem) else v, n)
        if op == ',':
            self.ev(a)
            return self.ev(b)
        if op in ('&&', '||'):
            x = self.truth_of(self.ev(a))
            if isinstance(x, bool):
                if x == (op == '||'):
                    return x
                y = self.truth_of(self.ev(b))
                return y if isinstance(y, bool) else Bool(y)
            # the second operand is evaluated under the first
            k = self.known(x)
            if k is not None:
                if k == (op == '||'):
                    return k
                y = self.truth_of(self.ev(b))
                return y if isinstance(y, bool) else Bool(y)
            base = self.save()
            self.assume(x if op == '&&' else T.neg(x))
            y = self.truth_of(self.ev(b))
            after = self.save()
            self.restore(base)
            if any(self.vkey_safe(after[0][q]) != self.vkey_safe(base[0].get(q, UNDEF)) for q in after[0]):
                raise Undecided('side effect in a condition')
            y = P(int(y)) if isinstance(y, bool) else y
            return Bool(x * y) if op == '&&' else Bool(x + y - x * y)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            x, y = self.ev(a), self.ev(b)
            if isinstance(x, (Ptr, Obj, Opaque)) or isinstance(y, (Ptr, Obj, Opaque)) or x is None or y is None:
                same = self.pointer_equal(x, y)
                if op == '==':
                    return same
                if op == '!=':
                    return not same
                raise Undecided('comparison of pointers')
            x, y = self.numeric(x), self.numeric(y)
            c = {'<': lambda: T.lt(x, y), '>': lambda: T.lt(y, x), '<=': lambda: T.ge(y, x), '>=': lambda: T.ge(x, y),
                 '==': lambda: T.eq(x, y), '!=': lambda: T.neg(T.eq(x, y))}[op]()
            k = c.const()
            return bool(k) if k is not None else Bool(c)
        return self.arith(op, self.ev(a), self.ev(b), n)

    def pointer_equal(self, x, y):
        for p, q in ((x, y), (y, x)):
            if isinstance(q, Ptr) and q.cid is None or isinstance(q, Poly) and q.const() == 0 or q is None:
                return isinstance(p, Ptr) and p.cid is None or p is None or isinstance(p, Poly) and p.const() == 0
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.cid == y.cid and x.off == y.off:
            return True
        if isinstance(x, Obj) and isinstance(y, Obj):
            return x.cid == y.cid
        raise Undecided('comparison of pointers')

    def E_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        a, b = children(n)
        lv = self.lvalue(a)
        old = self.num0(self.load(lv, a))
        new = self.arith(op, old, self.ev(b), {'type': n.get('computeResultType') or n.get('type')})
        t = ctype(n)
        if isinstance(new, Poly) and not ('double' in t or 'Complex' in t):
            new = self.trunc(new)
        return self.assign_lv(lv, new, n)

    def E_ConditionalOperator(self, n):
        c, a, b = children(n)
        t = self.truth_of(self.ev(c))
        if not isinstance(t, bool):
            k = self.known(t)
            t = k if k is not None else t
        if isinstance(t, bool):
            return self.ev(a if t else b)
        base = self.save()
        self.assume(t)
        x = self.numeric(self.ev(a))
        self.restore(base)
        self.assume(T.neg(t))
        y = self.numeric(self.ev(b))
        self.restore(base)
        return T.ite(t, x, y)

    # ------------------------------------------------------------------ calls
    def E_CallExpr(self, n):
        c = children(n)
        fn = self.ev(c[0])
        if not (isinstance(fn, tuple) and fn[0] == 'function'):
            raise Undecided('call through a pointer')
        name = fn[1]
        args = [self.ev(x) for x in c[1:]]
        if name in self.contracts:
            self.calls.append(name)
            return self.contracts[name](self, n, *args)
        if name in self.f.functions:
            return self.cinline(self.f.functions[name], args, n)
        m = getattr(self, 'C_' + name, None)
        if m is None:
            raise Undecided('call of %s (line %d)' % (name, self.f.line(n)))
        return m(n, *args)

    def params(self, fd):
        return [p for p in children(fd) if p.get('kind') == 'ParmVarDecl']

    def bind_params(self, fd, args):
        env = {}
        for p, v in zip(self.params(fd), args):
            self.names[self.key(p)] = p.get('name')
            env[self.key(p)] = self.num0(v) if not isinstance(v, RawMem) else self.to_type(v, ctype(p), p)
        return env

    def body_of(self, fd):
        return [c for c in children(fd) if c.get('kind') == 'CompoundStmt'][0]

    def cinline(self, fd, args, node):
        if self.depth > 20:
            raise Undecided('recursion of %s' % fd['name'])
        self.inlined.add(fd['name'])
        env = self.bind_params(fd, args)
        saved = self.env
        self.depth += 1
        try:
            def thunk():
                self.env = dict(env)
                try:
                    self.cstmt(self.body_of(fd))
                except Return as r:
                    return ('v', r.value)
                return ('v', None)
            base = self.save()
            outs = self.explore(thunk)
            if not outs:
                raise Infeasible()
            if len(outs) > 1 and all(o.kind == 'next' for o in outs) and all(isinstance(o.value[1], Poly) for o in outs):
                try:
                    for o in outs:
                        o.value = o.value[1]
                    self._strip(outs)
                    return self.merge(outs, base)
                except Undecided:
                    for o in outs:
                        o.value = ('v', o.value)
            self.restore(base)
            for k, o in enumerate(outs):
                if k == len(outs) - 1 or self.decide(o.cond):
                    self.restore(o.state)
                    if o.kind == 'next':
                        return o.value[1]
                    raise Undecided('outcome ' + o.kind)
        finally:
            self.env = saved
            self.depth -= 1

    def crun(self, name, args):
        """Executes a function and returns its outcomes."""
        if name not in self.f.functions:
            raise Undecided('%s is not defined' % name)
        fd = self.f.functions[name]
        env = self.bind_params(fd, args)

        def thunk():
            self.env = dict(env)
            try:
                self.cstmt(self.body_of(fd))
            except Return as r:
                return r.value
            return None
        return self.explore(thunk)

    # library
    def C_malloc(self, n, size):
        return RawMem(self.numeric(size))

    C_PyMem_Malloc = C_malloc

    def C_calloc(self, n, a, b):
        return RawMem(self.numeric(a) * self.numeric(b), zero=True)

    C_PyMem_Calloc = C_calloc

    def C_free(self, n, p):
        if isinstance(p, Ptr) and p.cid is None:
            return None
        if not isinstance(p, Ptr):
            raise Undecided('free of %r' % (p,))
        c = self.heap.get(p.cid)
        ok = p.cid in self.mallocs and not isinstance(c, Freed) and p.off == T.ZERO
        self.vc('free of a live allocation', n, ok, '' if ok else 'released twice or not allocated by malloc')
        self.heap[p.cid] = FREED
        return None

    C_PyMem_Free = C_free

    def C_memcpy(self, n, dst, src, size):
        if not isinstance(dst, Ptr) or not isinstance(src, Ptr):
            raise Undecided('memcpy')
        e = sizeof(self.elt[dst.cid])
        if sizeof(self.elt[src.cid]) != e:
            raise Undecided('memcpy between types')
        m = self.numeric(size) / e
        self.access(dst.cid, dst.off, n, 'write in bounds') if m.const() != 0 else None
        c, d = self.heap[src.cid], self.heap[dst.cid]
        if isinstance(c, Freed) or isinstance(d, Freed) or isinstance(c, dict) or isinstance(d, dict):
            raise Undecided('memcpy')
        self.vc('read in bounds', n, [src.off, c.shape[0] - src.off - m])
        self.vc('write in bounds', n, [dst.off, d.shape[0] - dst.off - m])
        inside = T.bracket_ge(D(0) - dst.off) * T.bracket_ge(dst.off + m - 1 - D(0))
        self.heap[dst.cid] = Arr(d.shape, inside * c.at(D(0) - dst.off + src.off) + (T.ONE - inside) * d.expr, d.dtype)
        return dst

    def C_memset(self, n, dst, v, size):
        d = self.heap[dst.cid]
        if self.numeric(v).const() != 0 or isinstance(d, (dict, Freed)):
            raise Undecided('memset')
        m = self.numeric(size) / sizeof(self.elt[dst.cid])
        self.vc('write in bounds', n, [dst.off, d.shape[0] - dst.off - m])
        inside = T.bracket_ge(D(0) - dst.off) * T.bracket_ge(dst.off + m - 1 - D(0))
        self.heap[dst.cid] = Arr(d.shape, (T.ONE - inside) * d.expr, d.dtype)
        return dst

    def C_creal(self, n, z):
        return T.re(self.numeric(z))

    def C_cimag(self, n, z):
        return T.im(self.numeric(z))

    def C_conj(self, n, z):
        return T.conj(self.numeric(z))

    def C_cexp(self, n, z):
        return T.exp(self.numeric(z))

    C_exp = C_cexp

    def C_cos(self, n, x):
        return T.cos(self.numeric(x))

    def C_sin(self, n, x):
        return T.sin(self.numeric(x))

    def C_cabs(self, n, z):
        return T.absolute(self.numeric(z))

    C_fabs = C_cabs
    C_abs = C_cabs

    def C_sqrt(self, n, x):
        return T.sqrt(self.numeric(x))

    def C_log(self, n, x):
        return T.log(self.numeric(x))

    def C_floor(self, n, x):
        return T.floor(self.numeric(x))

    def C_ceil(self, n, x):
        return -T.floor(-self.numeric(x))

    def C_round(self, n, x):
        x = self.numeric(x)
        if x.is_int():
            return x
        return T.fun('cround', x, sort='i')

    def C_rint(self, n, x):
        return T.rnd(self.numeric(x))

    C_nearbyint = C_rint

    def C_cpow(self, n, z, e):
        z, e = self.numeric(z), self.numeric(e)
        c = e.const()
        if c is not None:
            return T.power(z, c)
        if e.is_int() and len(z.m) == 1:
            (mono, co), = z.m.items()
            if co == 1 and all(a.kind == 'fun' and a.data[0] == 'exp' for a, x in mono):
                return T.exp(sum((a.data[1][0] * x for a, x in mono), T.ZERO) * e)
        return T.fun('pow', z, e, sort='c')

    def C_pow(self, n, x, e):
        x, e = self.numeric(x), self.numeric(e)
        c = e.const()
        if c is not None and (not self.safety or len(x.m) < 3):
            return T.power(x, c)
        return T.fun('pow', x, e, sort='r')         # bounds do not depend on the values: not expanded

    def C_fma(self, n, a, b, c):
        return self.numeric(a) * self.numeric(b) + self.numeric(c)

    def C_fmax(self, n, a, b):
        a, b = self.numeric(a), self.numeric(b)
        return T.ite(T.ge(a, b), a, b)

    def C_fmin(self, n, a, b):
        a, b = self.numeric(a), self.numeric(b)
        return T.ite(T.ge(a, b), b, a)

    def C_puts(self, n, *a):
        return P(0)

    C_printf = C_puts
    C_fprintf = C_puts

    def C_PyErr_SetString(self, n, *a):
        self.ghost['error'] = True
        return None

    C_PyErr_Format = C_PyErr_SetString

    def C_PyEval_SaveThread(self, n):
        return Opaque('thread')

    def C_PyEval_RestoreThread(self, n, t):
        return None

    # Python objects: array objects with the contents the contract gave them
    def array_object(self, cid, shape, t):
        self.elt[cid] = t
        return self.new_obj('PyArr', {'data': Ptr(cid, P(0)), 'shape': tuple(P(s) for s in shape), 'refs': P(0), 'made': False})

    def input_array(self, name, a, t):
        """An input array a (Arr of any rank) as a flat C-contiguous block."""
        n = T.ONE
        for s in a.shape:
            n = n * s
        if a.ndim == 2:
            w = a.shape[1]
            q = T.floordiv(D(0), w)
            flat = a.at(q, D(0) - w * q)
        else:
            flat = a.expr
        cid = self.new(Arr((n,), flat, a.dtype))
        o = self.array_object(cid, a.shape, t)
        self.inputs[name] = (o, self.heap[cid], cid)
        return o

    def C_PyArg_ParseTupleAndKeywords(self, n, arg, kw, fmt, names, *ptrs):
        if not isinstance(fmt, str) or not isinstance(names, tuple):
            raise Undecided('argument format')
        k = 0
        optional = False
        for ch in fmt.split(':')[0].split(';')[0]:
            if ch == '|':
                optional = True
                continue
            if ch in '$':
                continue
            if ch not in 'Odilp':
                raise Undecided('argument format ' + fmt)
            name = names[k] if k < len(names) else None
            if name in self.pyargs:
                v = self.pyargs[name]
            elif optional:
                v = None
            else:
                raise Undecided('the function has an argument %s that the contract does not know' % name)
            if v is not None:
                if (ch == 'O') != isinstance(v, Obj):
                    raise Undecided('argument %s has another type' % name)
                self.env[ptrs[k].key] = v
            k += 1
        if k != len(ptrs) or not set(self.pyargs) <= {x for x in names if x}:
            raise Undecided('arguments differ from those of the contract: %s' % (names,))
        return True

    def C_PyArray_FROM_OTF(self, n, o, typ, flags):
        if not isinstance(o, Obj):
            raise Undecided('conversion of %r' % (o,))
        d = self.heap[o.cid]
        want = {12: 'double', 15: '_Complex double'}.get(int(self.numeric(typ).const() or -1))
        if want is None:
            raise Undecided('array type')
        p = d['data']
        have = self.elt[p.cid]
        if want == 'double' and have != 'double':
            raise Undecided('complex input converted to real')
        if int(self.numeric(flags).const()) & 0x400:
            raise Undecided('writeable conversion')
        self.set_field(o, 'refs', d['refs'] + 1)
        self.ghost_type(p.cid, want)
        return o

    def ghost_type(self, cid, t):
        # the same values seen as complex numbers
        if self.elt[cid] != t:
            self.elt[cid] = t
            c = self.heap[cid]
            self.heap[cid] = c if c.dtype == 'c' else Arr(c.shape, c.expr, 'c')
            for k, (o, a, i) in self.inputs.items():
                if i == cid:
                    self.inputs[k] = (o, self.heap[cid], cid)

    def fields(self, o):
        if not isinstance(o, Obj):
            raise Undecided('array expected')
        return self.heap[o.cid]

    def C_PyArray_DATA(self, n, o):
        return self.fields(o)['data']

    C_PyArray_BYTES = C_PyArray_DATA

    def C_PyArray_NDIM(self, n, o):
        return P(len(self.fields(o)['shape']))

    def C_PyArray_SIZE(self, n, o):
        r = T.ONE
        for s in self.fields(o)['shape']:
            r = r * s
        return r

    def C_PyArray_DIM(self, n, o, k):
        s = self.fields(o)['shape']
        k = self.numeric(k).const()
        ok = k is not None and 0 <= k < len(s)
        self.vc('dimension exists', n, ok)
        if not ok:
            raise Undecided('dimension')
        return s[int(k)]

    def C_PyArray_DIMS(self, n, o):
        s = self.fields(o)['shape']
        cid = self.new(Arr((len(s),), sum((T.bracket_eq(D(0) - k) * x for k, x in enumerate(s)), T.ZERO), 'i'))
        self.elt[cid] = 'long'
        return Ptr(cid, P(0))

    C_PyArray_SHAPE = C_PyArray_DIMS

    def C_PyArray_SimpleNew(self, n, nd, dims, typ):
        k = int(self.numeric(nd).const())
        shape = [self.read(dims.cid, dims.off + j, n) for j in range(k)]
        e = {12: 'double', 15: '_Complex double'}.get(int(self.numeric(typ).const() or -1))
        if e is None:
            raise Undecided('array type')
        total = T.ONE
        for s in shape:
            total = total * s
        cid = self.new(Arr((total,), self.undef(sort_of(e)), {'r': 'f', 'c': 'c'}[sort_of(e)]))
        o = self.array_object(cid, shape, e)
        self.set_field(o, 'refs', P(1))
        self.set_field(o, 'made', True)
        return o

    def C_PyArray_ZEROS(self, n, nd, dims, typ, order):
        o = self.C_PyArray_SimpleNew(n, nd, dims, typ)
        cid = self.heap[o.cid]['data'].cid
        c = self.heap[cid]
        self.heap[cid] = Arr(c.shape, T.ZERO, c.dtype)
        return o

    def C_PyArray_Return(self, n, o):
        return o

    def C_Py_DECREF(self, n, o):
        if isinstance(o, Ptr) and o.cid is None:
            return None
        d = self.fields(o)
        self.set_field(o, 'refs', d['refs'] - 1)
        return None

    C_Py_XDECREF = C_Py_DECREF
    C_Py_CLEAR = C_Py_DECREF

    def C_Py_INCREF(self, n, o):
        self.set_field(o, 'refs', self.fields(o)['refs'] + 1)

    C_Py_XINCREF = C_Py_INCREF


SWAP = {'+': '-', '-': '+', '*': '/', '/': '*', '<': '<=', '<=': '<', '>': '>=', '>=': '>', '==': '!=', '!=': '==', '+=': '-=', '-=': '+=', '*=': '/='}


def walk(n):
    yield n
    for c in children(n):
        yield from walk(c)


def mutate(f, fname):
    """(description, function giving a file with the function changed)"""
    import copy
    out = []
    for k, n in enumerate(walk(f.functions[fname])):
        new = None
        if n.get('kind') in ('BinaryOperator', 'CompoundAssignOperator') and n.get('opcode') in SWAP and '*' not in ctype(n):
            new = ('opcode', SWAP[n['opcode']])
        elif n.get('kind') == 'IntegerLiteral':
            new = ('value', str(int(n['value']) + 1))
        elif n.get('kind') == 'FloatingLiteral':
            new = ('value', str(float(n['value']) + 1))
        if new is None:
            continue

        def make(k=k, new=new):
            g = copy.copy(f)
            g.functions = dict(f.functions)
            node = copy.deepcopy(f.functions[fname])
            for j, m in enumerate(walk(node)):
                if j == k:
                    m[new[0]] = new[1]
            g.functions[fname] = node
            return g
        out.append(('%s %s at line %d' % (n['kind'], n.get('opcode', n.get('value')), f.line(n)), make))
    return out


_files = {}


def load(root, name):
    path = os.path.join(root, 'c', name + '.c')
    if path not in _files:
        _files[path] = CFile(path)
    return _files[path]
