"""Source loader: modules, classes, functions of the analysed repository."""
import ast
import os


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.defs = {}        # name -> Func | Class | ('import', mod, attr) | ('assign', expr)
        for st in self._toplevel(tree.body):
            self._collect(st)

    def _toplevel(self, body):
        for st in body:
            if isinstance(st, (ast.If, ast.Try)):
                yield from self._toplevel(st.body)
                for h in getattr(st, 'handlers', []):
                    yield from self._toplevel(h.body)
                yield from self._toplevel(st.orelse)
            else:
                yield st

    def _collect(self, st):
        if isinstance(st, ast.FunctionDef):
            self.defs[st.name] = Func(st.name, st, self, None)
        elif isinstance(st, ast.ClassDef):
            self.defs[st.name] = Class(st.name, st, self)
        elif isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    self.defs[a.asname] = ('import', a.name, None)
                else:
                    self.defs[a.name.split('.')[0]] = ('import', a.name.split('.')[0], None)
        elif isinstance(st, ast.ImportFrom):
            base = st.module or ''
            if st.level:
                pk = self.name.split('.')[:-st.level]
                base = '.'.join(pk + ([st.module] if st.module else []))
            for a in st.names:
                self.defs[a.asname or a.name] = ('import', base, a.name)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.defs[t.id] = ('assign', st.value)
        elif isinstance(st, ast.AnnAssign) and st.value is not None:
            if isinstance(st.target, ast.Name):
                self.defs[st.target.id] = ('assign', st.value)


class Func:
    def __init__(self, name, node, mod, cls, closure=None):
        self.name, self.node, self.mod, self.cls = name, node, mod, cls
        self.closure = closure
        self.kind = 'func'
        for d in getattr(node, 'decorator_list', []):
            dn = d.id if isinstance(d, ast.Name) else (
                d.attr if isinstance(d, ast.Attribute) else None)
            if dn in ('staticmethod', 'classmethod', 'property'):
                self.kind = dn
            elif dn in ('abstractmethod', 'lru_cache', 'cache', 'wraps'):
                pass
            else:
                self.kind = 'decorated'

    @property
    def qual(self):
        return (self.cls.name + '.' if self.cls else '') + self.name

    def __repr__(self):
        return '<%s:%s>' % (self.mod.name if self.mod else '?', self.qual)


class Class:
    def __init__(self, name, node, mod):
        self.name, self.node, self.mod = name, node, mod
        self.methods, self.attrs = {}, {}
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                self.methods[st.name] = Func(st.name, st, mod, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                if isinstance(st.target, ast.Name):
                    self.attrs[st.target.id] = st.value
        # method aliases  (foo = bar)
        for k, v in list(self.attrs.items()):
            if isinstance(v, ast.Name) and v.id in self.methods:
                self.methods[k] = self.methods[v.id]

    def __repr__(self):
        return '<class %s>' % self.name


class Program:
    """All Python modules below root (tests excluded)."""

    def __init__(self, root, exclude=('tests', 'build', '.git')):
        self.root = root
        self.modules = {}
        self.errors = []
        for dp, dns, fns in os.walk(root):
            rel = os.path.relpath(dp, root)
            dns[:] = [d for d in dns if not (rel == '.' and d in exclude)
                      and not d.startswith('.') and d != '__pycache__']
            for fn in sorted(fns):
                if not fn.endswith('.py'):
                    continue
                p = os.path.join(dp, fn)
                rp = os.path.relpath(p, root)
                name = rp[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                self.load(name, p)

    def load(self, name, path, src=None):
        try:
            if src is None:
                with open(path, encoding='utf-8') as f:
                    src = f.read()
            tree = ast.parse(src, path)
        except (SyntaxError, UnicodeDecodeError) as e:
            self.errors.append((path, str(e)))
            return None
        m = Module(name, path, tree, src)
        self.modules[name] = m
        return m

    def rel(self, path):
        return os.path.relpath(path, self.root) if path.startswith(self.root) else path

    def resolve(self, mod, name, depth=0):
        """Module-level name -> Func/Class/Module/('ext', dotted)/('assign', expr, mod)/None."""
        d = mod.defs.get(name)
        if d is None:
            return None
        if isinstance(d, (Func, Class)):
            return d
        if d[0] == 'assign':
            return ('assign', d[1], mod)
        _, base, attr = d
        if attr is None:
            if base in self.modules:
                return self.modules[base]
            if any(m.startswith(base + '.') for m in self.modules):
                return ('pkg', base)
            return ('ext', base)
        if base in self.modules:
            m2 = self.modules[base]
            if attr in m2.defs and depth < 10:
                return self.resolve(m2, attr, depth + 1)
            if base + '.' + attr in self.modules:
                return self.modules[base + '.' + attr]
            return None
        if base + '.' + attr in self.modules:
            return self.modules[base + '.' + attr]
        return ('ext', base + '.' + attr)

    def find_class(self, name):
        c = [m.defs[name] for m in self.modules.values()
             if isinstance(m.defs.get(name), Class)]
        return c[0] if c else None

    def find_func(self, qual):
        """'Class.method' or 'function' or 'module:function'."""
        if ':' in qual:
            mn, q = qual.split(':')
            m = self.modules.get(mn)
            if m is None:
                return None
            if '.' in q:
                c, f = q.split('.')
                c = m.defs.get(c)
                return self.method(c, f) if isinstance(c, Class) else None
            d = m.defs.get(q)
            return d if isinstance(d, Func) else None
        if '.' in qual:
            c, f = qual.split('.')
            c = self.find_class(c)
            return self.method(c, f) if c else None
        for m in self.modules.values():
            d = m.defs.get(qual)
            if isinstance(d, Func):
                return d
        return None

    def mro(self, cls):
        out = [cls]
        for b in cls.node.bases:
            if isinstance(b, ast.Name):
                r = self.resolve(cls.mod, b.id)
                if isinstance(r, Class):
                    for x in self.mro(r):
                        if x not in out:
                            out.append(x)
            elif isinstance(b, ast.Attribute):
                pass
        return out

    def method(self, cls, name, after=None):
        seen = after is None
        for c in self.mro(cls):
            if seen and name in c.methods:
                return c.methods[name]
            if c is after:
                seen = True
        return None

    def classattr(self, cls, name):
        for c in self.mro(cls):
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def subclasses(self, cls):
        out = []
        for m in self.modules.values():
            for d in m.defs.values():
                if isinstance(d, Class) and d is not cls and cls in self.mro(d):
                    out.append(d)
        return out

    def classes(self):
        for m in self.modules.values():
            for d in m.defs.values():
                if isinstance(d, Class) and d.mod is m:
                    yield d

    def functions(self):
        for m in self.modules.values():
            for d in m.defs.values():
                if isinstance(d, Func) and d.mod is m:
                    yield d
                elif isinstance(d, Class) and d.mod is m:
                    yield from d.methods.values()
