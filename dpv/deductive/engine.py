"""Obligations: generation from the current source, discharge, and reporting.

Status of an obligation: discharged (accepted), refuted (a valuation or a path contradicts it), undecided (generated, not
accepted and not contradicted) and unsupported (the source uses something outside the verifier's reach, so that the
obligation could not be generated)."""
import ast, copy, time, random, traceback, os, itertools, signal, re
from dpv.deductive import terms as T, smt
from dpv.deductive.terms import P, Poly, Undecided
from dpv.deductive.values import *
from dpv.deductive.sym import Interp, PyExc, Exit, Infeasible
from dpv.deductive import cfront
from dpv.deductive.source import Source

TRUSTED_ALWAYS = [
    'machine arithmetic is treated as exact real and integer arithmetic (rounding, overflow, inf and nan are outside the proofs)',
    'the verifier itself: the symbolic interpreter of Python (dpv/deductive/sym.py) and of C (cfront.py), the canonical form of terms '
    '(terms.py; every accepted equality is also evaluated at sample valuations) and z3',
    'numpy functions do what the contracts in dpv/deductive/npfun.py say',
    'denominators are not zero and arguments of square roots and logarithms are in their domain',
]


class CQual:
    """A function of one of the C kernels."""
    def __init__(self, module, function, file=None):
        self.module, self.function, self.file = module, function, file


def qname(qual):
    if isinstance(qual, CQual):
        return 'c/%s.c:%s' % (qual.module, qual.function)
    return qual if isinstance(qual, str) else qual[0]


def lost(p):
    """The term contains what a loop without a known invariant may have left."""
    return 'H#' in p.key or re.search(r'\bh#[a-zA-Z]*\d', p.key) is not None


class Engine:
    def __init__(self, pid, root=None, source=None, quiet=False):
        self.pid = pid
        self.source = source or Source(root)
        self.obligations = []
        self.functions = []
        self.trusted = list(TRUSTED_ALWAYS)
        self.bounded = []
        self.cases = []           # (function of the witness) -> concrete case
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.only = None
        self.pool = None
        self.mutants = (0, 0)
        self.z3 = {}
        self.known_valuations = {}

    # ------------------------------------------------------------------ recording
    def add(self, name, status, detail='', function=None, backend='canonical form', seconds=0.0, case=None):
        o = dict(name=name, status=status, detail=str(detail)[:9500], function=function, backend=backend, seconds=seconds)
        if case is not None:
            o['case'] = case
        self.obligations.append(o)
        return status == 'discharged'

    def trust(self, *texts):
        for t in texts:
            if t not in self.trusted:
                self.trusted.append(t)

    # ------------------------------------------------------------------ valuations
    def valuations(self, polys, path, count=4, fixed=None, tries=400):
        """Sample valuations that satisfy FACTS and the path."""
        names = set()
        seen = set()

        def scan(p):
            for mono in p.m:
                for a, e in mono:
                    scan_atom(a)

        def scan_atom(a):
            if a.key in seen:
                return
            seen.add(a.key)
            if a.kind == 'var' and a.sort == 'i':
                names.add(a.data)
            elif a.kind == 'app':
                for x in a.data[1]:
                    scan(x)
            elif a.kind == 'fun':
                for x in a.data[1]:
                    scan(x)
            elif a.kind == 'pow':
                scan(a.data)
            elif a.kind == 'iv':
                scan(a.data[1])
            elif a.kind == 'sum':
                for r in a.data[1]:
                    scan(r)
                scan(Poly({a.data[2]: T.F(1)}))
        for p in list(polys) + list(T.FACTS) + list(path):
            scan(p)
        names = sorted(n for n in names if not n.startswith('_'))
        rng = random.Random(self.seed * 7919 + len(names))
        out = []
        rels = list(T.FACTS)
        memo = (tuple(names), tuple(f.key for f in rels), tuple(c.key for c in path), count, tries, repr(fixed))
        if memo in self.known_valuations:
            out = self.known_valuations[memo]
            for v in out:
                v.budget = 400000
            return out

        def ok(v):
            try:
                for f in rels:
                    x = T.evaluate(f, v)
                    if (x.real if isinstance(x, complex) else x) < -1e-9:
                        return False
                for c in path:
                    if abs(T.evaluate(c, v) - 1) > 1e-9:
                        return False
                return True
            except (T.EvalError, OverflowError, ZeroDivisionError):
                return False
        for k in range(tries):
            ints = {n: (rng.randint(0, 3) if n.startswith('@') else rng.randint(1, 5)) for n in names}
            ints.update(fixed or {})
            v = T.Valuation('%s/%d' % (self.seed, k), ints)
            if ok(v):
                out.append(v)
                if len(out) >= count:
                    break
        if len(out) < count:
            for extra in range(3):
                st, model = smt.satisfiable(rels, path)
                if st != 'sat':
                    break
                ints = {n: int(model[n]) for n in names if n in model}
                for n in names:
                    if n not in ints:
                        ints[n] = rng.randint(1, 3)
                v = T.Valuation('%s/z%d' % (self.seed, extra), ints, reals={k: x for k, x in model.items() if isinstance(x, float)})
                if ok(v):
                    out.append(v)
        for v in out:
            v.budget = 400000
        self.known_valuations[memo] = out
        return out

    # ------------------------------------------------------------------ equality of terms and values
    def equal(self, name, got, want, path=(), function=None, dims=(), case=None, detail=''):
        """Obligation: two terms are equal under FACTS and path; dims: lengths of the index variables @k."""
        t = time.time()
        got, want = P(got), P(want)
        extra = []
        for k, n in enumerate(dims):
            extra.append(P(n) - 1 - D(k))
        with T.facts(*extra):
            try:
                vals = None
                st, wit = T.equal(got, want, (), path, last=False)
                small = [(k, int(P(n).const())) for k, n in enumerate(dims) if P(n).const() is not None and P(n).const() <= 4]
                if st == 'unknown' and small:
                    # short axes: each element on its own
                    st2 = 'equal'
                    for ix in itertools.product(*[range(n) for k, n in small]):
                        sub = {'@%d' % k: P(x) for (k, n), x in zip(small, ix)}
                        st2, w2 = T.equal(T.subst(got, sub), T.subst(want, sub), (), path)
                        if st2 != 'equal':
                            break
                    if st2 == 'equal':
                        st, wit = 'equal', None
                if st == 'unknown':
                    vals = self.valuations([got, want], path)
                    st, wit = T.equal(got, want, vals, path)
                backend = 'z3' if wit == 'z3' else 'canonical form'
                if st == 'equal':
                    # the accepted equality is evaluated as well
                    vals = vals or self.valuations([got, want], path, count=2, tries=60)
                    for v in vals:
                        try:
                            x, y = T.evaluate(got, v), T.evaluate(want, v)
                        except (T.EvalError, OverflowError, ZeroDivisionError):
                            continue
                        if abs(x - y) > 1e-6 * (1 + abs(x) + abs(y)):
                            return self.add(name, 'unsupported', 'the accepted equality fails numerically (engine fault): %s %s' % (x, y), function, 'none',
                                            time.time() - t)
                    return self.add(name, 'discharged', '', function, backend, time.time() - t)
                if st != 'equal' and lost(got):
                    return self.add(name, 'unsupported', 'a loop has no known invariant: %.300r' % (got,), function, 'none', time.time() - t)
                if st == 'different':
                    c = None
                    if case is not None:
                        try:
                            c = case(wit[1])
                        except Exception:
                            c = None
                    return self.add(name, 'refuted', 'code gives %.9r and the contract %.9r at %s %s\n code: %.3000r\n contract: %.3000r' % (
                        wit[2], wit[3], wit[1], detail, got, want), function, backend, time.time() - t, case=c)
                return self.add(name, 'undecided', wit, function, 'canonical form', time.time() - t)
            except Undecided as e:
                return self.add(name, 'unsupported', e, function, 'none', time.time() - t)
            except RecursionError:
                return self.add(name, 'unsupported', 'recursion', function, 'none', time.time() - t)

    def same(self, name, got, want, path=(), function=None, I=None, case=None):
        """Obligation: two frozen values are equal."""
        if isinstance(want, (int, float)) and not isinstance(want, bool):
            want = P(want)
        if isinstance(want, Poly):
            g = got
            if isinstance(g, Arr) and g.ndim == 0:
                g = g.expr
            if isinstance(g, (Bool, bool)):
                g = g.p if isinstance(g, Bool) else P(g)
            if not isinstance(g, Poly):
                return self.add(name, 'unsupported' if got is UNDEF or isinstance(got, Opaque) and not got.name.startswith('some:') else 'refuted', 'code gives %r where the contract is a number' % (got,), function)
            return self.equal(name, g, want, path, function, case=case)
        if isinstance(want, Bool):
            return self.equal(name, got.p if isinstance(got, Bool) else P(got), want.p, path, function, case=case)
        if isinstance(want, Arr):
            if isinstance(got, (Seq,)) and I is not None:
                try:
                    got = I.arr(got)
                except Undecided as e:
                    return self.add(name, 'unsupported', e, function)
            if not isinstance(got, Arr):
                return self.add(name, 'unsupported' if got is UNDEF or isinstance(got, Opaque) and not got.name.startswith('some:') else 'refuted', 'code gives %r where the contract is an array' % (got,), function)
            if got.ndim != want.ndim:
                return self.add(name, 'refuted', 'rank %d instead of %d' % (got.ndim, want.ndim), function)
            ok = True
            for k in range(want.ndim):
                if not same_dim(got.shape[k], want.shape[k]):
                    ok = self.equal(name + '/shape%d' % k, got.shape[k], want.shape[k], path, function, case=case) and ok
            if not ok:
                return False
            return self.equal(name, got.expr, want.expr, path, function, dims=want.shape, case=case)
        if isinstance(want, tuple):
            if not isinstance(got, tuple) and isinstance(got, Seq) and len(got.segs) <= 1 and (not got.segs or got.segs[0][0] == 'items'):
                got = got.segs[0][1] if got.segs else ()
            if not isinstance(got, tuple) or len(got) != len(want):
                return self.add(name, 'refuted', 'code gives %r where the contract has %d items' % (got, len(want)), function)
            ok = True
            for k, (g, w) in enumerate(zip(got, want)):
                ok = self.same('%s[%d]' % (name, k), g, w, path, function, I, case) and ok
            return ok
        if got is want or type(got) is type(want) and not isinstance(got, (Arr, Seq)) and got == want:
            return self.add(name, 'discharged', '', function)
        if isinstance(got, Opaque) and isinstance(want, Opaque) and got.name == want.name:
            return self.add(name, 'discharged', '', function)
        if isinstance(want, Opaque) and want.name.startswith('some:') and (
                isinstance(got, Opaque) and got.name.startswith('some:') or isinstance(got, (Poly, Arr, Seq, bool, str, tuple))):
            return self.add(name, 'refuted', 'code gives %r, the contract %r' % (got, want), function)
        if got is None or want is None or isinstance(want, (bool, str)):
            if (isinstance(got, Opaque) and not got.name.startswith('some:')) or isinstance(got, Bool) or got is UNDEF:
                return self.add(name, 'unsupported', 'code gives %r, the contract %r' % (got, want), function)
            return self.add(name, 'refuted', 'code gives %r, the contract %r' % (got, want), function)
        return self.add(name, 'unsupported', 'no comparison of %r and %r' % (got, want), function)

    def entailed(self, name, cond, path=(), function=None, case=None):
        """Obligation: the indicator term cond is 1."""
        t = time.time()
        c = cond.const()
        if c is not None:
            return self.add(name, 'discharged' if c == 1 else 'refuted', '' if c == 1 else 'condition is false', function, 'canonical form', time.time() - t)
        r, m = smt.prove(list(T.FACTS), path, cond)
        if r:
            return self.add(name, 'discharged', '', function, 'z3', time.time() - t)
        return self.add(name, 'undecided', 'z3: %s for %.200r %s' % ('not entailed' if r is False else 'unknown', cond, str(m)[:300] if m is not None else ''), function, 'z3', time.time() - t)

    # ------------------------------------------------------------------ functions under contract
    def function(self, name, qual, setup, check, contracts=None, facts=(), outcome='next', frame=True, mutants=True, case=None):
        """Generates and discharges the obligations of one function.
        setup(I) -> (args, kwargs);  check(ob, I, outcome) makes the obligations of one normal path through
        ob(name, got, want);  outcome: kinds of outcome that are allowed."""
        if self.only is not None and name != self.only:
            return
        if self.pool is not None:
            qs = qname(qual)
            self.functions.append(qs if not name or name == qs else '%s (%s)' % (qs, name))
            self.pool.start((self, name, qual, setup, check, contracts, [P(f) for f in facts], outcome, frame, case, mutants))
            return
        n0 = len(self.obligations)
        saved = list(T.FACTS)
        t = time.time()
        qs = qname(qual)
        I = None
        self.functions.append(qs if not name or name == qs else '%s (%s)' % (qs, name))
        try:
            T.FACTS.extend([P(f) for f in facts])
            if isinstance(qual, CQual):
                I = cfront.CInterp(qual.file or cfront.load(self.source.root, qual.module), contracts)
                args, kw = setup(I)
                pre = {c: v for k, (x, v, c) in I.inputs.items()}
                outs = I.crun(qual.function, args)
            else:
                I = Interp(self.source, contracts)
                args, kw = setup(I)
                pre = {c: v for c, v in I.heap.items()}
                outs = I.run(qs, args, kw)
            if not outs:
                self.add(name + '/reachable', 'unsupported', 'no path through the function satisfies the precondition', qs)
            for k, o in enumerate(outs):
                tag = name + ('' if len(outs) == 1 else '#%d' % (k + 1))
                I.restore(o.state)
                if o.kind not in (outcome if isinstance(outcome, (tuple, list)) else (outcome,)):
                    st, model = smt.satisfiable(list(T.FACTS), o.conds)
                    if st == 'unsat':
                        self.add(tag + '/infeasible', 'discharged', '', qs, 'z3')
                    else:
                        why = o.value if o.kind == 'raise' else o.kind
                        self.add(tag + '/terminates normally', 'refuted' if st == 'sat' and o.kind in ('exit', 'raise') and all(exact(c) for c in o.conds) else 'undecided',
                                 'a path ends with %r when %.300r' % (why, [c.key for c in o.conds]), qs)
                    continue
                cnt = len(self.obligations)

                def ob(sub, got, want, path=None, case_=None):
                    g = I.freeze(got) if isinstance(got, (Ref, ListRef, tuple)) else got
                    w = I.freeze(want) if isinstance(want, (Ref, ListRef, tuple)) else want
                    return self.same(tag + '/' + sub, g, w, tuple(o.conds) if path is None else path, qs, I, case=case_ or case)
                check(ob, I, o)
                if frame:
                    ok = True
                    for c, v in pre.items():
                        if isinstance(v, Arr) and I.heap.get(c) is not v:
                            g = I.heap[c]
                            ok = False
                            self.same(tag + '/frame: input array %d unchanged' % c, g, v, tuple(o.conds), qs, I)
                    if ok:
                        self.add(tag + '/frame', 'discharged', 'no input array is written', qs, 'frame')
                if isinstance(qual, CQual) and I.safety:
                    self.released(tag, I, o, qs)
                if len(self.obligations) == cnt and not isinstance(qual, CQual):
                    self.add(tag + '/vacuous', 'unsupported', 'no obligation was generated', qs)
            if isinstance(qual, CQual) and I.safety:
                kinds = {}
                for v in I.vcs:
                    kinds.setdefault(v['kind'], []).append(v)
                for k, vs in sorted(kinds.items()):
                    bad = [v for v in vs if not v['ok']]
                    self.add('%s/%s (%d places)' % (name, k, len({v['line'] for v in vs})), 'undecided' if bad else 'discharged',
                             '; '.join(sorted({'line %d: %s' % (v['line'], v['detail']) for v in bad}))[:800], qs, 'z3')
        except Undecided as e:
            bad = [v for v in getattr(I, 'vcs', ()) if not v['ok']] if isinstance(qual, CQual) and I is not None and I.safety else []
            if bad:
                self.add('%s/%s' % (name, bad[0]['kind']), 'undecided', 'line %d: %s' % (bad[0]['line'], bad[0]['detail']), qs, 'z3', time.time() - t)
            self.add(name, 'unsupported', e, qs, 'none', time.time() - t)
        except (PyExc, Exit, Infeasible) as e:
            self.add(name, 'unsupported', 'interpreter: %r' % (e,), qs, 'none', time.time() - t)
        except RecursionError:
            self.add(name, "unsupported", 'recursion limit', qs, 'none', time.time() - t)
        except Exception as e:
            self.add(name, 'unsupported', 'interpreter fault: ' + traceback.format_exc()[-6000:], qs, 'none', time.time() - t)
        finally:
            T.FACTS[:] = saved

    def released(self, tag, I, o, qs):
        """Obligations at the end of a C function: memory and references are given back."""
        keep = I.owned(I, o) if I.owned else set()
        left = [c for c in I.mallocs if c in I.heap and not isinstance(I.heap[c], cfront.Freed) and c not in keep]
        self.add(tag + '/every allocation is released', 'undecided' if left else 'discharged',
                 'memory allocated at line %s is still held' % ', '.join(str(I.mallocs[c]) for c in left), qs, 'ownership')
        bad = []
        for name, (x, v, c) in I.inputs.items():
            r = I.heap[x.cid]['refs']
            if r != T.ZERO:
                bad.append('%s: %r references too many' % (name, r))
        for cid, d in I.heap.items():
            if isinstance(d, dict) and d.get('made') is True:
                mine = isinstance(o.value, Obj) and o.value.cid == cid
                if d['refs'] != P(1 if mine else 0):
                    bad.append('result array: %r references' % d['refs'])
        self.add(tag + '/references are balanced', 'undecided' if bad else 'discharged', '; '.join(bad), qs, 'ownership')

    # ------------------------------------------------------------------ parallel discharge
    def collect(self):
        """Waits for the functions that are being verified in other processes."""
        st = {'broken_bodies': 0, 'not_accepted': 0, 'accepted': []}
        for arg, r in self.pool.results():
            name, qual = arg[1], arg[2]
            if isinstance(r, str):
                self.add(name, 'unsupported', 'the verifier failed: ' + r, qual)
                continue
            obs, stats, test = r
            self.obligations += obs
            for k, v in stats.items():
                self.z3[k] = self.z3.get(k, 0) + v
            for desc, accepted in test:
                st['broken_bodies'] += 1
                if accepted:
                    st['accepted'].append('%s: %s' % (name, desc))
                else:
                    st['not_accepted'] += 1
        st['accepted'] = st['accepted'][:30]
        self.functions = sorted(set(self.functions))
        return st


def _one(arg):
    """Verifies one function, then some deliberately broken bodies of it, which must not be accepted."""
    E, name, qual, setup, check, contracts, facts, outcome, frame, case, mutants = arg
    e = Engine(E.pid, source=E.source)
    e.seed = E.seed
    for key in smt.STATS:
        smt.STATS[key] = 0
    t = time.time()
    e.function(name, qual, setup, check, contracts, facts, outcome, frame, mutants=False, case=case)
    t = time.time() - t
    stats = dict(smt.STATS)
    test = []
    limit, seconds = E.mutants
    if mutants and limit and e.obligations and all(o['status'] == 'discharged' for o in e.obligations):
        qs = qname(qual)
        if isinstance(qual, CQual):
            f = cfront.load(E.source.root, qual.module)
            muts = cfront.mutate(f, qual.function)
        else:
            muts = mutate(Interp(E.source, contracts).function(qs).node)
        random.Random('%s %s' % (E.seed, name)).shuffle(muts)
        t0 = time.time()
        def late(*a):
            raise TimeoutError('mutant')
        signal.signal(signal.SIGALRM, late)
        for desc, apply in muts[:limit]:
            signal.alarm(0)
            if time.time() - t0 + t > seconds:
                break
            signal.alarm(max(5, int(3 * t)))
            src = Source(E.source.root)
            m = Engine(E.pid, source=src)
            if isinstance(qual, CQual):
                m.function(name, CQual(qual.module, qual.function, apply()), setup, check, contracts, facts, outcome, frame, mutants=False)
                test.append((desc, bool(m.obligations) and all(o['status'] == 'discharged' for o in m.obligations)))
                continue
            node = Interp(src, contracts).function(qs).node
            if not apply(node):
                continue
            m.function(name, qual, setup, check, contracts, facts, outcome, frame, mutants=False)
            test.append((desc, bool(m.obligations) and all(o['status'] == 'discharged' for o in m.obligations)))
        signal.alarm(0)
    return e.obligations, stats, test


class Pool:
    """Runs _one in forked processes: started at once (the process inherits the contract as it is), collected in order."""

    def __init__(self, jobs):
        self.jobs = jobs
        self.args, self.done, self.running = [], {}, {}
        self.limit = float(os.environ.get('DPV_FUNCTION_S', '600' if os.environ.get('VERIF_TIER') == 'thorough' else '150'))
        self.deadline = time.time() + (36000 if os.environ.get('VERIF_TIER') == 'thorough' else 330)

    def start(self, arg):
        import pickle
        while len(self.running) >= self.jobs:
            self.step()
        k = len(self.args)
        self.args.append(arg)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    data = pickle.dumps(_one(arg))
                except BaseException:
                    data = pickle.dumps(traceback.format_exc()[-6000:])
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        self.running[r] = (k, pid, [], time.time())

    def step(self):
        import pickle, select
        ready, _, _ = select.select(list(self.running), [], [], 2.0)
        for fd, (k, pid, buf, t) in list(self.running.items()):
            if (time.time() - t > self.limit or time.time() > self.deadline) and fd not in ready:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                del self.running[fd]
                self.done[k] = 'no result in %d s' % self.limit
        for fd in ready:
            data = os.read(fd, 1 << 20)
            k, pid, buf, t = self.running[fd]
            if data:
                buf.append(data)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del self.running[fd]
            try:
                self.done[k] = pickle.loads(b''.join(buf))
            except Exception:
                self.done[k] = 'process ended without a result'

    def results(self):
        while self.running:
            self.step()
        return [(a, self.done[k]) for k, a in enumerate(self.args)]


def exact(c):
    """The condition is over variables only (no uninterpreted function hides in it)."""
    return all(a.kind in ('iv',) and _plain(a.data[1]) for mono in c.m for a, e in mono)


def _plain(p):
    return all(a.kind in ('var', 'const') for mono in p.m for a, e in mono)


SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
CMP = {ast.Lt: ast.LtE, ast.Gt: ast.GtE, ast.LtE: ast.Lt, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def mutate(node):
    """(description, function that applies the mutation to a fresh copy of the node)"""
    out = []
    for k, n in enumerate(ast.walk(node)):
        line = getattr(n, 'lineno', 0)
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in SWAP:
            out.append(('operator at line %d' % line, _mut(k, lambda m: setattr(m, 'op', SWAP[type(m.op)]()))))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            out.append(('constant %r at line %d' % (n.value, line), _mut(k, lambda m: setattr(m, 'value', m.value + 1))))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            out.append(('comparison at line %d' % line, _mut(k, lambda m: m.ops.__setitem__(0, CMP[type(m.ops[0])]()))))
    return out


def _mut(k, change):
    def apply(node):
        for j, n in enumerate(ast.walk(node)):
            if j == k:
                change(n)
                return True
        return False
    return apply


def run(pid, mod, root=None):
    """Runs the contracts of a property.  mod.obligations(E) generates them."""
    import sys
    sys.setrecursionlimit(20000)
    t = time.time()
    E = Engine(pid, root)
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    E.pool = Pool(int(os.environ.get('DPV_JOBS', '8')))
    if os.environ.get('DPV_SELFTEST', '1') != '0':
        E.mutants = (int(os.environ.get('DPV_MUTANTS', '40' if thorough else '2')), 120 if thorough else 12)
    try:
        mod.obligations(E)
    except Exception:
        E.add(pid + '/contracts', 'unsupported', 'contract module fault: ' + traceback.format_exc()[-800:])
    st = E.collect()
    T.FACTS[:] = []
    backends = {}
    for o in E.obligations:
        backends[o['backend']] = backends.get(o['backend'], 0) + 1
    return {'obligations': E.obligations, 'functions': sorted(set(E.functions)), 'backends': backends, 'trusted': E.trusted, 'bounded': E.bounded,
            'self_test': st, 'z3': E.z3, 'seconds': round(time.time() - t, 2)}
