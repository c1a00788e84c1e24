"""The Python modules of the package as syntax trees, read from the working tree on every run."""
import ast, os, warnings
from dpv import common


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.text = open(path).read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(self.text)
        self.functions, self.classes, self.imports, self.assigns = {}, {}, {}, {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for node in body:
            if isinstance(node, ast.FunctionDef):
                self.functions[node.name] = node
            elif isinstance(node, ast.ClassDef):
                self.classes[node.name] = ClassInfo(node, self)
            elif isinstance(node, ast.Import):
                for a in node.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(node, ast.ImportFrom):
                for a in node.names:
                    self.imports.setdefault(a.asname or a.name, '%s.%s' % (node.module, a.name))
            elif isinstance(node, ast.Assign):
                for t in node.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = node.value
            elif isinstance(node, ast.Try):
                self._scan(node.body)
                for h in node.handlers:
                    self._scan(h.body)
            elif isinstance(node, ast.If):
                self._scan(node.body)
                self._scan(node.orelse)


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods, self.getters, self.setters, self.consts = {}, {}, {}, {}
        self.bases = [b.id for b in node.bases if isinstance(b, ast.Name)]
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                kind = 'method'
                for d in n.decorator_list:
                    if isinstance(d, ast.Name) and d.id == 'property':
                        kind = 'get'
                    elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                        kind = 'set'
                    elif isinstance(d, ast.Name) and d.id == 'staticmethod':
                        kind = 'static'
                {'method': self.methods, 'get': self.getters, 'set': self.setters, 'static': self.methods}[kind][n.name] = n
                if kind == 'static':
                    n.dpv_static = True
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = n.value


class Source:
    def __init__(self, root=None):
        self.root = root or common.REPO
        self.modules = {}

    def module(self, name):
        """Module of the package by dotted name, or None."""
        if name in self.modules:
            return self.modules[name]
        base = os.path.join(self.root, *name.split('.'))
        m = None
        for path in (base + '.py', os.path.join(base, '__init__.py')):
            if os.path.isfile(path):
                m = Module(name, path)
                break
        self.modules[name] = m
        return m

    def script(self, name):
        k = 'script:' + name
        if k not in self.modules:
            m = self.modules[k] = Module(k, os.path.join(self.root, 'scripts', name))
            # the statements of the script as the body of one function: nothing else is changed
            f = ast.parse('def main(): pass').body[0]
            f.name, f.body = '__main__', m.tree.body
            m.functions['__main__'] = f
        return self.modules[k]
