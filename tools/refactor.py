"""Behaviour-preserving rewrites of the whole package, to see that the checks stay quiet.
   python3 tools/refactor.py KIND DEST   writes a copy of the repository with every function rewritten
Kinds: negate, helper, temps, loops, enumerate, commute, dot, square, rename, noop, ternary, kwargs, slices."""
import ast, os, shutil, sys, builtins

SRC = os.environ.get('DPV_REPO', '/repo')


class Negate(ast.NodeTransformer):
    """if c: A else: B  ->  if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.copy_location(ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body), n)
        return n


class Temps(ast.NodeTransformer):
    """return f(g(x))  ->  t = g(x); return f(t)   (the first argument that is a call, operands in order)"""
    def __init__(self):
        self.n = 0

    def split(self, n):
        v = n.value
        if isinstance(v, ast.Call) and v.args and isinstance(v.args[0], (ast.Call, ast.BinOp)) and isinstance(v.func, (ast.Name, ast.Attribute)) \
                and not any(isinstance(x, ast.Starred) for x in v.args):
            self.n += 1
            name = 'temporary_%d' % self.n
            a = ast.Assign([ast.Name(name, ast.Store())], v.args[0])
            v.args[0] = ast.Name(name, ast.Load())
            return [a, n]
        return n

    def visit_Return(self, n):
        return self.split(n) if n.value is not None else n

    def visit_Assign(self, n):
        return self.split(n)

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        return n


class Loops(ast.NodeTransformer):
    """x = [f(i) for i in r]  ->  x = []; for i in r: x.append(f(i))"""
    def __init__(self):
        self.n = 0

    def visit_Assign(self, n):
        v = n.value
        if isinstance(v, ast.ListComp) and len(v.generators) == 1 and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            g = v.generators[0]
            names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            t = n.targets[0].id
            if t in {x.id for x in ast.walk(v) if isinstance(x, ast.Name)}:
                return n
            self.n += 1

            class R(ast.NodeTransformer):
                def visit_Name(s, x):
                    return ast.Name('each_' + x.id, x.ctx) if x.id in names else x
            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), 'append', ast.Load()), [R().visit(v.elt)], []))]
            for c in g.ifs:
                body = [ast.If(R().visit(c), body, [])]
            return [ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load())), ast.For(R().visit(g.target), g.iter, body, [])]
        return n


class Enumerate(ast.NodeTransformer):
    """for i, x in enumerate(xs)  ->  for i in range(len(xs)): x = xs[i]"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'enumerate' and len(n.iter.args) == 1 \
                and isinstance(n.iter.args[0], (ast.Name,)) and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2:
            i, x = n.target.elts
            xs = n.iter.args[0]
            if isinstance(i, ast.Name):
                return ast.For(i, ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [xs], [])], []),
                               [ast.Assign([x], ast.Subscript(xs, ast.Name(i.id, ast.Load()), ast.Load()))] + n.body, n.orelse)
        return n


class Commute(ast.NodeTransformer):
    """a * b -> b * a  where no text is repeated"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and not any(isinstance(x, (ast.List, ast.JoinedStr, ast.ListComp)) or isinstance(x, ast.Constant) and isinstance(x.value, (str, bytes))
                                                  for y in (n.left, n.right) for x in ast.walk(y)):
            return ast.BinOp(n.right, ast.Mult(), n.left)
        return n


class Dot(ast.NodeTransformer):
    """np.dot(a, b) -> np.matmul is not the same for vectors and scalars; use the method"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'dot' and isinstance(n.func.value, ast.Name) and n.func.value.id == 'np' and len(n.args) == 2:
            return ast.Call(ast.Attribute(ast.Call(ast.Attribute(ast.Name('np', ast.Load()), 'asarray', ast.Load()), [n.args[0]], []), 'dot', ast.Load()), [n.args[1]], [])
        return n


class Square(ast.NodeTransformer):
    """x ** 2 -> x * x for plain names; np.power(x, 2) likewise; abs(x) -> np.abs(x)"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.left, ast.Name) and isinstance(n.right, ast.Constant) and n.right.value == 2:
            return ast.BinOp(n.left, ast.Mult(), n.left)
        return n


class Ternary(ast.NodeTransformer):
    """x = a if c else b -> if c: x = a else: x = b"""
    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp):
            return ast.If(n.value.test, [ast.Assign(n.targets, n.value.body)], [ast.Assign(n.targets, n.value.orelse)])
        return n


class Compare(ast.NodeTransformer):
    """a < b -> b > a"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if len(n.ops) == 1 and type(n.ops[0]) in sw:
            return ast.Compare(n.comparators[0], [sw[type(n.ops[0])]()], [n.left])
        return n


class Guard(ast.NodeTransformer):
    """if c: return a; rest... -> if c: return a else: rest"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.block(n.body)
        return n

    def block(self, body):
        for k, s in enumerate(body[:-1]):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], ast.Return):
                s.orelse = self.block(body[k + 1:])
                return body[:k + 1]
        return body


class Divide(ast.NodeTransformer):
    """a / b -> a * (1.0 / b)"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.BinOp(n.left, ast.Mult(), ast.BinOp(ast.Constant(1.0), ast.Div(), n.right))
        return n


class Distribute(ast.NodeTransformer):
    """a - b -> a + (-b)"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Sub):
            return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right))
        return n


class While(ast.NodeTransformer):
    """for i in range(n): B -> i = 0; while i < n: B; i += 1  (no continue)"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range' and len(n.iter.args) == 1 and isinstance(n.target, ast.Name) \
                and not n.orelse and not any(isinstance(x, ast.Continue) for x in ast.walk(n)):
            i = n.target.id
            return [ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0)),
                    ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [n.iter.args[0]]),
                              n.body + [ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return n


class Early(ast.NodeTransformer):
    """loop bodies: if c: B (last statement) -> if not c: continue; B"""
    def visit_For(self, n):
        self.generic_visit(n)
        s = n.body[-1]
        if isinstance(s, ast.If) and not s.orelse:
            n.body = n.body[:-1] + [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Continue()], [])] + s.body
        return n


class Accumulate(ast.NodeTransformer):
    """x += e -> x = x + e for plain names (no arrays are shared here)"""
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            return ast.Assign([ast.Name(n.target.id, ast.Store())], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
        return n


def locals_of(f):
    a = f.args
    params = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    names = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    glob = {y for x in ast.walk(f) if isinstance(x, (ast.Global, ast.Nonlocal)) for y in x.names}
    inner = {y.arg for x in ast.walk(f) if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not f for y in x.args.args}
    return names - params - glob - inner


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        names = locals_of(f)

        class R(ast.NodeTransformer):
            def visit_Name(s, x):
                return ast.Name('my_' + x.id, x.ctx) if x.id in names else x
        f.body = [R().visit(x) for x in f.body]
        return f


def helper(tree):
    """def f(a): B  ->  def f_body(a): B;  def f(a): return f_body(a)   (functions and methods without special arguments)"""
    def split(f, method):
        a = f.args
        if f.decorator_list or a.vararg or a.kwarg or a.kwonlyargs or f.name.startswith('__') or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
            return [f]
        name = f.name + '_body'
        names = [x.arg for x in a.args]
        call = ast.Attribute(ast.Name('self', ast.Load()), name, ast.Load()) if method else ast.Name(name, ast.Load())
        if method:
            if not names or names[0] != 'self':
                return [f]
            names = names[1:]
        g = ast.FunctionDef(name, ast.arguments([], list(a.args), None, [], [], None, []), f.body, [])
        f.body = [ast.Return(ast.Call(call, [ast.Name(x, ast.Load()) for x in names], []))]
        return [g, f]

    def level(body, method=False):
        out = []
        for s in body:
            if isinstance(s, ast.FunctionDef):
                out += split(s, method)
            else:
                if isinstance(s, ast.ClassDef):
                    s.body = level(s.body, True)
                out.append(s)
        return out
    tree.body = level(tree.body)
    return tree


class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        f.body.insert(0, ast.Assign([ast.Name('unused', ast.Store())], ast.Constant(None)))
        return f


KINDS = {'negate': Negate, 'temps': Temps, 'loops': Loops, 'enumerate': Enumerate, 'commute': Commute, 'dot': Dot, 'square': Square, 'ternary': Ternary, 'compare': Compare,
         'guard': Guard, 'divide': Divide, 'minus': Distribute, 'while': While, 'early': Early, 'accumulate': Accumulate, 'rename': Rename, 'noop': Noop}


def main(kind, dest, only=None):
    shutil.rmtree(dest, ignore_errors=True)
    shutil.copytree(SRC, dest, ignore=shutil.ignore_patterns('.git', 'build'))
    n = 0
    paths = [os.path.join(r, f) for r, d, fs in os.walk(os.path.join(dest, 'dynaphopy')) for f in fs if f.endswith('.py')] + [os.path.join(dest, 'scripts', 'concath5')]
    for p in paths:
        text = open(p).read()
        tree = ast.parse(text)
        tree = helper(tree) if kind == 'helper' else KINDS[kind]().visit(tree)
        ast.fix_missing_locations(tree)
        new = ast.unparse(tree)
        ast.parse(new)
        n += new != ast.unparse(ast.parse(text))
        open(p, 'w').write(('#!/usr/bin/env python\n' if text.startswith('#!') else '') + new + '\n')
    print(kind, n, 'files changed')


if __name__ == '__main__':
    main(*sys.argv[1:])
