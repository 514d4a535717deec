"""May-alias analysis of the instance's arrays (flow- and context-sensitive in the call
arguments, flow-insensitive in the fields).

Abstract values are sets of
  ('o', class)           an object of the repository
  ('d', field, n, sure)  the array in a data field of the instance, or a view of it with n
                         dimensions; sure: the view is certain (not a possible copy)
  ('c', elements)        a list, dictionary or set;  ('t', values)  a tuple
  ('a',) a fresh array   ('n',) a number or text    ('k', class)  ('f', function, self)
  ('x', dotted)          something of a library     ('m', module)
Every construct that writes to an array in place is a sink; a sink reached by 'd' is recorded.
"""
import ast
from .pyfront import Func, Class, Module

E = frozenset()
NUM = frozenset([('n',)])
ARR = frozenset([('a',)])
VIEW_M = {'reshape', 'ravel', 'view', 'squeeze', 'transpose', 'swapaxes', 'diagonal'}
VIEW_A = {'T', 'flat', 'real', 'base', 'data'}
VIEW_F = {'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'atleast_1d',
          'atleast_2d', 'atleast_3d', 'ravel', 'reshape', 'transpose', 'squeeze', 'expand_dims',
          'swapaxes', 'moveaxis', 'rollaxis', 'broadcast_to', 'require', 'flip', 'fliplr',
          'flipud'}
MUT_M = {'sort', 'fill', 'put', 'resize', 'partition', 'itemset', 'setflags', 'setfield'}
MUT_F = {'copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'put_along_axis', 'shuffle'}
UFUNC2 = {'add', 'subtract', 'multiply', 'divide', 'true_divide', 'maximum', 'minimum',
          'power', 'mod', 'floor_divide'}
UFUNC1 = {'negative', 'absolute', 'abs', 'sqrt', 'exp', 'floor', 'ceil', 'rint', 'sign'}
SCALAR = {'len', 'int', 'float', 'str', 'abs', 'round', 'bool', 'sum', 'isinstance', 'hasattr',
          'repr', 'format', 'id', 'hash', 'ord', 'chr', 'any', 'all'}


def j(*vs):
    return frozenset().union(*vs)


def depth(v):
    d = 0
    for x in v:
        if x[0] == 'c':
            d = max(d, 1 + depth(x[1]))
        elif x[0] == 't':
            d = max([d] + [1 + depth(y) for y in x[1]])
    return d


def cont(elems):
    if depth(elems) > 4:
        elems = frozenset(x for x in elems if x[0] not in 'ct')
    return frozenset([('c', elems)])


def merge(v):
    """one container per value."""
    cs = [x for x in v if x[0] == 'c']
    if len(cs) > 1:
        return frozenset(x for x in v if x[0] != 'c') | cont(merge(j(*[x[1] for x in cs])))
    return v


def unsure(v):
    return frozenset(x[:3] + (False,) if x[0] == 'd' else x for x in v)


def elem(v):
    out = set()
    for x in v:
        if x[0] == 'd':
            out.add(('d', x[1], x[2] - 1, x[3]) if x[2] > 1 else ('n',))
        elif x[0] == 'c':
            out |= x[1]
        elif x[0] == 't':
            for y in x[1]:
                out |= y
        elif x[0] == 'a':
            out.add(('n',))
    return frozenset(out)


class Stop(Exception):
    pass


class Alias:
    def __init__(self, prog, data, scalars, inst, part, own, tables):
        """data: field -> dimensions; scalars: other fields; inst, part: classes;
        own: fields of the part; tables: (class, field) -> dimensions."""
        self.prog, self.data, self.scalars, self.tables = prog, data, scalars, tables
        self.inst, self.part, self.own = inst, part, own
        self.fields = {}
        self.changed = False
        self.sinks = {}
        self.visited = set()
        self.exposed = {}          # (path, line) of an expression that is a view
        self.stack = []
        self.nsinks = set()
        self.icls = set(prog.mro(inst)) if inst else set()
        self.memo = {}
        self.globals = {}
        self.made = set()
        self.hooks = {}

    def isinst(self, c):
        return self.inst in self.prog.mro(c)

    # ------------------------------------------------------------------ run
    def entries(self, pre):
        """functions not reached so far, with instance arguments by their use."""
        objs = {x[1] for v in self.fields.values() for x in v if x[0] == 'o'} | self.made
        inst = frozenset([('o', self.inst)])
        for f in sorted(self.prog.functions(), key=lambda f: (f.mod.name, f.qual)):
            if (f.mod.name, f.qual) in self.visited or not f.mod.name.startswith(pre):
                continue
            cs = [c for c in objs if f.cls in self.prog.mro(c)] if f.cls else [None]
            for c in sorted(cs, key=lambda c: c.name if c else ''):
                names = [a.arg for a in f.node.args.args]
                args = []
                if c is not None and f.kind != 'staticmethod':
                    args.append(frozenset([('o', c)]))
                args += [inst if x in ('chance_instance', 'instance') else E
                         for x in names[len(args):]]
                self.call(f, args, {}, f.node)

    def run(self, mods, pre, extra=None, mod=None):
        for _ in range(10):
            self.changed = False
            self.memo = {}
            self.visited = set()
            for m in mods:
                env = {}
                self.globals[m.name] = env
                self.frame(None, m)
                self.block(m.tree.body, env)
                self.entries(pre)
                self.stack.pop()
            if extra is not None:
                self.frame(None, mod)
                extra()
                self.stack.pop()
            if not self.changed:
                return True
        return False

    def frame(self, f, m, ctor=False):
        self.stack.append((f, m, ctor, [E]))

    @property
    def mod(self):
        return self.stack[-1][1]

    @property
    def func(self):
        return self.stack[-1][0]

    # ------------------------------------------------------------------ statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def join(self, env, *others):
        for o in others:
            for k, v in o.items():
                env[k] = merge(env.get(k, E) | v)

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env, s)
        elif isinstance(s, ast.AugAssign):
            self.augassign(s, env)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, env)
        elif isinstance(s, ast.Return):
            v = self.ev(s.value, env) if s.value else E
            self.stack[-1][3][0] |= v
            raise Stop
        elif isinstance(s, (ast.Raise, ast.Assert)):
            for x in ast.iter_child_nodes(s):
                self.ev(x, env)
            if isinstance(s, ast.Raise):
                raise Stop
        elif isinstance(s, (ast.Break, ast.Continue)):
            raise Stop
        elif isinstance(s, ast.If):
            self.ev(s.test, env)
            self.branch(env, [s.body, s.orelse])
        elif isinstance(s, (ast.For, ast.While)):
            it = self.ev(s.iter, env) if isinstance(s, ast.For) else None
            for _ in range(5):
                old = dict(env)
                e2 = dict(env)
                if it is not None:
                    self.assign(s.target, elem(it), e2, s)
                else:
                    self.ev(s.test, e2)
                self.quiet(s.body, e2)
                self.join(env, e2)
                if env == old:
                    break
            self.branch(env, [s.orelse])
        elif isinstance(s, ast.Try):
            e1 = dict(env)
            alive = self.quiet(s.body, e1)
            outs = []
            if alive and self.quiet(s.orelse, e1):
                outs.append(e1)
            mid = dict(env)
            self.join(mid, e1)
            for h in s.handlers:
                e2 = dict(mid)
                if self.quiet(h.body, e2):
                    outs.append(e2)
            if not outs:
                self.quiet(s.finalbody, mid)
                raise Stop
            env.clear()
            self.join(env, *outs)
            self.block(s.finalbody, env)
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, s)
            self.block(s.body, env)
        elif isinstance(s, ast.FunctionDef):
            f = Func(s.name, s, self.mod, None)
            env[s.name] = frozenset([('f', f, None)])
            inner = dict(env)
            for a in s.args.args:
                inner[a.arg] = E
            self.frame(self.func, self.mod, self.stack[-1][2])
            self.quiet(s.body, inner)
            self.stack.pop()
        elif isinstance(s, ast.ClassDef):
            pass
        else:
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    self.ev(x, env)

    def quiet(self, body, env):
        try:
            self.block(body, env)
            return True
        except Stop:
            return False

    def branch(self, env, bodies):
        outs = []
        for b in bodies:
            e = dict(env)
            if self.quiet(b, e):
                outs.append(e)
        if not outs:
            raise Stop
        env.clear()
        self.join(env, *outs)

    # ------------------------------------------------------------------ stores
    def assign(self, t, v, env, s):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, cont(elem(v)), env, s)
                    continue
                w = E
                for y in v:
                    if y[0] == 't' and len(y[1]) == n:
                        w |= y[1][i]
                    elif y[0] != 't':
                        w |= elem(frozenset([y]))
                self.assign(x, w, env, s)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.sink(b, t, 'assignment to %s' % ast.unparse(t))
            self.addto(t.value, v, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, s)

    def setattr(self, b, attr, v, node):
        for o in b:
            if o[0] != 'o':
                continue
            if (attr in self.data or attr in self.scalars) and self.isinst(o[1]):
                self.store(o, attr, node)
            self.flow(self.key(o[1], attr), v)

    def key(self, c, attr):
        if self.isinst(c):
            return ('instance', attr)
        return (self.prog.mro(c)[-1].name, attr)

    def flow(self, key, v):
        old = self.fields.get(key, E)
        new = merge(old | v)
        if new != old:
            self.fields[key] = new
            self.changed = True

    def store(self, o, attr, node):
        """the field of an instance object is bound again."""
        if self.exempt(attr):
            return
        self.record(node, 'the field %s of the instance is assigned' % attr, attr, True)

    def exempt(self, field):
        if any(ctor for _, _, ctor, _ in self.stack):
            return True
        f = self.func
        return field in self.own and f is not None and f.cls is self.part

    def sink(self, v, node, what):
        self.nsinks.add((self.mod.path, node.lineno, what))
        t = node.target if isinstance(node, ast.AugAssign) else node
        while isinstance(t, ast.Subscript):
            t = t.value
        for x in v:
            if isinstance(t, ast.Attribute) and any(f == t.attr == x[1] for _, f in self.tables):
                continue                      # being filled
            if x[0] == 'd' and not self.exempt(x[1]):
                self.record(node, what, x[1], x[3])

    def record(self, node, what, field, sure):
        f = self.func
        k = (self.mod.path, node.lineno, f.qual if f else self.mod.name, what, field)
        self.sinks[k] = self.sinks.get(k, False) or sure

    def augassign(self, s, env):
        v = self.ev(s.value, env)
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.Name(t.id, ast.Load(), lineno=s.lineno), env)
            self.sink(old, s, 'in-place %s' % ast.unparse(s))
            keep = frozenset(x for x in old if x[0] in 'dca')
            env[t.id] = keep | (E if keep else self.arith(old, v))
            if any(x[0] == 'c' for x in old):
                env[t.id] = merge(env[t.id] | cont(elem(v)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            old = self.getattr(o, t.attr, t)
            self.sink(old, s, 'in-place %s' % ast.unparse(s))
            self.setattr(o, t.attr, frozenset(x for x in old if x[0] != 'd'), t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.sink(b, s, 'in-place %s' % ast.unparse(s))
            el = elem(b)
            self.sink(frozenset(x for x in el if any(y[0] == 'c' for y in b)), s,
                      'in-place %s' % ast.unparse(s))

    def addto(self, e, v, env):
        """weak update of the container denoted by e."""
        if isinstance(e, ast.Name) and e.id in env:
            if any(x[0] == 'c' for x in env[e.id]) and v:
                env[e.id] = merge(env[e.id] | cont(v))
        elif isinstance(e, ast.Attribute):
            for o in self.ev(e.value, env):
                if o[0] == 'o' and v:
                    self.flow(self.key(o[1], e.attr), cont(v))
        elif isinstance(e, ast.Subscript):
            self.addto(e.value, cont(v), env)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, env):
        f = getattr(self, 'e_' + type(e).__name__, None)
        if f is None:
            for x in ast.iter_child_nodes(e):
                if isinstance(x, ast.expr):
                    self.ev(x, env)
            return E
        v = f(e, env)
        if any(x[0] == 'd' for x in v) and hasattr(e, 'lineno'):
            self.exposed[(self.mod.path, e.lineno, ast.unparse(e) if not isinstance(
                e, ast.Call) else 'call')] = 1
        return v

    def e_Constant(self, e, env):
        return NUM

    def e_JoinedStr(self, e, env):
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                self.ev(x.value, env)
        return NUM

    def e_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        g = self.globals.get(self.mod.name)
        if g is not None and e.id in g and g is not env:
            return g[e.id]
        return self.glob(self.mod, e.id)

    def glob(self, m, name):
        r = self.prog.resolve(m, name)
        if isinstance(r, Class):
            return frozenset([('k', r)])
        if isinstance(r, Func):
            return frozenset([('f', r, None)])
        if isinstance(r, Module):
            return frozenset([('m', r)])
        if isinstance(r, tuple) and r[0] == 'ext':
            return frozenset([('x', r[1])])
        if isinstance(r, tuple) and r[0] == 'pkg':
            return E
        if r is None and name in ('list', 'dict', 'set', 'tuple', 'range', 'enumerate', 'zip',
                                  'sorted', 'reversed', 'min', 'max', 'map', 'filter', 'super',
                                  'frozenset', 'print', 'iter', 'next', 'getattr',
                                  'setattr', 'vars') or name in SCALAR:
            return frozenset([('x', name)])
        return E

    def getattr(self, b, attr, node):
        out = E
        for o in b:
            if o[0] == 'o':
                m = self.prog.method(o[1], attr)
                if m is not None:
                    out |= frozenset([('f', m, None if m.kind == 'staticmethod' else o)])
                    continue
                if self.isinst(o[1]) and attr in self.data:
                    out |= frozenset([('d', attr, self.data[attr], True)])
                    out |= frozenset(x for x in self.fields.get(self.key(o[1], attr), E)
                                     if x[0] == 'd')
                elif any((c.name, attr) in self.tables for c in self.prog.mro(o[1])):
                    n = [self.tables[c.name, attr] for c in self.prog.mro(o[1])
                         if (c.name, attr) in self.tables][0]
                    out |= frozenset([('d', attr, n, True)])
                else:
                    out |= self.fields.get(self.key(o[1], attr), E)
                    a = self.prog.classattr(o[1], attr)
                    if a is not None:
                        out |= self.ev(a[1], {})
            elif o[0] == 'k':
                m = self.prog.method(o[1], attr)
                if m is not None:
                    out |= frozenset([('f', m, None)])
                else:
                    out |= self.fields.get(self.key(o[1], attr), E)
            elif o[0] == 'x':
                out |= frozenset([('x', o[1] + '.' + attr)])
            elif o[0] == 'm':
                out |= self.glob(o[1], attr)
            elif o[0] == 'd' and attr in VIEW_A:
                out |= frozenset([o if attr != 'flat' else ('d', o[1], 1, o[3])])
            elif o[0] == 'd' and attr in ('shape', 'size', 'ndim', 'dtype'):
                out |= cont(NUM) if attr == 'shape' else NUM
            elif o[0] == 'a' and attr in VIEW_A:
                out |= ARR
        return out

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr, e)

    def e_Tuple(self, e, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.e_List(e, env)
        vs = tuple(self.ev(x, env) for x in e.elts)
        if max([0] + [depth(v) for v in vs]) > 4:
            return cont(j(*vs))
        return frozenset([('t', vs)])

    def e_List(self, e, env):
        v = E
        for x in e.elts:
            v |= elem(self.ev(x.value, env)) if isinstance(x, ast.Starred) else self.ev(x, env)
        return cont(merge(v))

    e_Set = e_List

    def e_Dict(self, e, env):
        v = E
        for k, x in zip(e.keys, e.values):
            if k is not None:
                self.ev(k, env)
                v |= self.ev(x, env)
            else:
                v |= elem(self.ev(x, env))
        return cont(merge(v))

    def comp(self, e, env, elts):
        env = dict(env)
        for g in e.generators:
            self.assign(g.target, elem(self.ev(g.iter, env)), env, e)
            for c in g.ifs:
                self.ev(c, env)
        v = [self.ev(x, env) for x in elts][-1]
        return cont(merge(v))

    def e_ListComp(self, e, env):
        return self.comp(e, env, [e.elt])

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, env):
        return self.comp(e, env, [e.key, e.value])

    def e_Lambda(self, e, env):
        env = dict(env)
        for a in e.args.args:
            env[a.arg] = E
        self.ev(e.body, env)
        return E

    def e_IfExp(self, e, env):
        self.ev(e.test, env)
        return merge(self.ev(e.body, env) | self.ev(e.orelse, env))

    def e_BoolOp(self, e, env):
        return merge(j(*[self.ev(x, env) for x in e.values]))

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        env[e.target.id] = v
        return v

    def e_Starred(self, e, env):
        return elem(self.ev(e.value, env))

    def arith(self, *vs):
        tags = {x[0] for v in vs for x in v}
        if tags & {'d', 'a'}:
            return ARR
        cs = [x for v in vs for x in v if x[0] in 'ct']
        if cs:
            return cont(merge(j(*[elem(frozenset([c])) for c in cs])))
        if all(v and all(x[0] == 'n' for x in v) for v in vs):
            return NUM
        return E

    def e_BinOp(self, e, env):
        return self.arith(self.ev(e.left, env), self.ev(e.right, env))

    def e_UnaryOp(self, e, env):
        return self.arith(self.ev(e.operand, env))

    def e_Compare(self, e, env):
        vs = [self.ev(x, env) for x in [e.left] + e.comparators]
        return ARR if any(x[0] in 'da' for v in vs for x in v) else NUM

    def e_Slice(self, e, env):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x, env)
        return E

    def e_Subscript(self, e, env):
        b = self.ev(e.value, env)
        parts = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        ix = [self.ev(x, env) for x in parts]
        out = E
        for o in b:
            if o[0] == 'd':
                out |= self.view(o, parts, ix)
            elif o[0] == 'c':
                out |= frozenset([o]) if isinstance(e.slice, ast.Slice) else o[1]
            elif o[0] == 't':
                if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and \
                        -len(o[1]) <= e.slice.value < len(o[1]):
                    out |= o[1][e.slice.value]
                elif isinstance(e.slice, ast.Slice):
                    out |= cont(elem(frozenset([o])))
                else:
                    out |= elem(frozenset([o]))
            elif o[0] == 'a':
                out |= ARR
        return merge(out)

    def view(self, o, parts, ix):
        n, sure = o[2], o[3]
        for p, v in zip(parts, ix):
            if isinstance(p, ast.Slice):
                continue
            if isinstance(p, ast.Constant) and p.value is Ellipsis:
                continue
            if isinstance(p, ast.Constant) and p.value is None or \
                    isinstance(p, ast.Attribute) and p.attr == 'newaxis':
                n += 1
                continue
            tags = {x[0] for x in v}
            if tags and tags <= {'c', 'a', 'd'}:
                return ARR                    # selects by an array: a copy
            n -= 1
            if not tags or tags != {'n'}:
                sure = False
        return frozenset([('d', o[1], n, sure)]) if n > 0 else NUM

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, env):
        args = [self.ev(a, env) for a in e.args]
        kws = {k.arg: self.ev(k.value, env) for k in e.keywords}
        if isinstance(e.func, ast.Attribute):
            if isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) \
                    and e.func.value.func.id == 'super':
                return self.supercall(e, args, kws, env)
            base = self.ev(e.func.value, env)
            out = self.methodcall(e, base, e.func.attr, args, kws, env)
            fv = self.getattr(base, e.func.attr, e)
        else:
            out = E
            fv = self.ev(e.func, env)
        for f in fv:
            out |= self.apply(f, args, kws, e, env)
        return merge(out)

    def supercall(self, e, args, kws, env):
        f = self.func
        out = E
        for o in env.get('self', E):
            if o[0] == 'o' and f is not None and f.cls is not None:
                m = self.prog.method(o[1], e.func.attr, after=f.cls)
                if m is not None:
                    out |= self.call(m, [frozenset([o])] + args, kws, e)
        return out

    def methodcall(self, e, base, name, args, kws, env):
        out = E
        for o in base:
            if o[0] == 'd':
                if name in MUT_M:
                    self.sink(frozenset([o]), e, 'call %s' % ast.unparse(e)[:60])
                if name in VIEW_M:
                    n, sure = o[2], o[3]
                    if name == 'reshape':
                        sh = e.args[0].elts if len(e.args) == 1 and isinstance(
                            e.args[0], ast.Tuple) else e.args
                        n = len(sh)
                        if any(isinstance(x, ast.Starred) for x in sh):
                            sure = False
                    elif name == 'ravel':
                        n = 1
                    elif name == 'squeeze':
                        sure = False
                    out |= frozenset([('d', o[1], n, sure)]) if n > 0 else NUM
                elif name == 'astype':
                    keep = any(k.arg == 'copy' for k in e.keywords)
                    out |= unsure(frozenset([o])) if keep else ARR
                elif name == 'tolist':
                    out |= cont(NUM if o[2] == 1 else cont(NUM) if o[2] == 2
                                else cont(cont(NUM)))
                elif name in ('sum', 'min', 'max', 'mean', 'dot', 'prod', 'item', 'argmax',
                              'argmin', 'all', 'any', 'std', 'var'):
                    out |= NUM if o[2] == 1 else ARR
                elif name not in MUT_M:
                    out |= ARR
            elif o[0] == 'a':
                if name in ('tolist',):
                    out |= cont(E)
                elif name not in ('sum', 'min', 'max', 'mean', 'dot', 'prod', 'item'):
                    out |= ARR
            elif o[0] in 'ct':
                el = elem(frozenset([o]))
                if name in ('append', 'add', 'insert', 'setdefault'):
                    self.addto(e.func.value, args[-1] if args else E, env)
                    if name == 'setdefault':
                        out |= el
                elif name in ('extend', 'update'):
                    self.addto(e.func.value, elem(args[0]) if args else E, env)
                elif name in ('pop', 'popitem'):
                    out |= el
                elif name == 'get':
                    out |= el | (args[1] if len(args) > 1 else E)
                elif name in ('copy', 'values', 'union', 'intersection', 'difference'):
                    out |= frozenset([('c', el)])
                elif name == 'items':
                    out |= cont(frozenset([('t', (NUM, el))]))
                elif name == 'keys':
                    out |= cont(NUM)
                elif name in ('index', 'count'):
                    out |= NUM
        for k, v in kws.items():
            if k == 'out':
                self.sink(v, e, 'result written to %s' % k)
                self.sink(elem(frozenset(x for x in v if x[0] in 'ct')), e,
                          'result written to %s' % k)
        return out

    def apply(self, f, args, kws, e, env):
        if f[0] == 'f':
            a = ([frozenset([f[2]])] if f[2] is not None else []) + args
            return self.call(f[1], a, kws, e)
        if f[0] == 'k':
            o = ('o', f[1])
            self.made.add(f[1])
            m = self.prog.method(f[1], '__init__')
            if m is not None:
                self.call(m, [frozenset([o])] + args, kws, e,
                          ctor=self.inst is not None and self.isinst(f[1]))
            return frozenset([o])
        if f[0] == 'x':
            return self.external(f[1], args, kws, e, env)
        return E

    def external(self, name, args, kws, e, env):
        mod, _, fn = name.rpartition('.')
        if fn in self.hooks:
            return self.hooks[fn](args, kws, e, env)
        if name == 'setattr' and len(e.args) == 3 and isinstance(e.args[1], ast.Constant):
            self.setattr(args[0], e.args[1].value, args[2], e)
            return E
        if name == 'getattr' and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
            return self.getattr(args[0], e.args[1].value, e)
        if not mod:
            if name == 'range':
                return cont(NUM)
            if name in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'iter',
                        'filter'):
                if name == 'filter':
                    args = args[1:]
                return cont(elem(args[0])) if args else cont(E)
            if name == 'dict':
                return cont(elem(args[0]) if args else j(*kws.values()) if kws else E)
            if name == 'enumerate':
                return cont(frozenset([('t', (NUM, elem(args[0])))]))
            if name == 'zip':
                return cont(frozenset([('t', tuple(elem(a) for a in args))]))
            if name in ('min', 'max', 'next'):
                return elem(args[0]) if len(args) == 1 else j(*args)
            if name == 'map':
                out = E
                for f in args[0] if args else ():
                    out |= self.apply(f, [elem(a) for a in args[1:]], {}, e, env)
                return cont(out)
            if name in SCALAR:
                return NUM
            return E
        root = name.split('.')[0]
        if fn in MUT_F and root in ('numpy', 'random') and args:
            self.sink(args[0], e, 'call %s' % ast.unparse(e)[:60])
            return E
        if root == 'numpy' and fn == 'at' and args:
            self.sink(args[0], e, 'call %s' % ast.unparse(e)[:60])
            return E
        if root == 'numpy':
            if fn in UFUNC2 and len(args) > 2:
                self.sink(args[2], e, 'result written to the third argument')
            if fn in UFUNC1 and len(args) > 1:
                self.sink(args[1], e, 'result written to the second argument')
            if fn == 'nan_to_num' and any(k.arg == 'copy' for k in e.keywords) and args:
                self.sink(unsure(args[0]), e, 'call nan_to_num without copy')
        if root == 'copy':
            if fn == 'copy' and args:
                return frozenset(x if x[0] in 'oct' else ('a',) for x in args[0])
            return frozenset(x for x in args[0] if x[0] not in 'dot') if args else E
        if root == 'numpy' and args:
            d = frozenset(x for x in args[0] if x[0] == 'd')
            if fn in VIEW_F and d:
                n = {'atleast_2d': 2, 'atleast_3d': 3, 'ravel': 1}.get(fn)
                if fn in ('reshape', 'squeeze', 'expand_dims', 'broadcast_to'):
                    return unsure(d)
                return frozenset(('d', x[1], n or x[2], x[3]) for x in d)
            if fn in ('array', 'asarray') and any(
                    k.arg == 'copy' and isinstance(k.value, ast.Constant) and not k.value.value
                    for k in e.keywords):
                return d or ARR
            if fn in ('split', 'array_split', 'vsplit', 'hsplit') and d:
                return cont(d)
            if fn in ('sum', 'min', 'max', 'mean', 'prod', 'dot', 'count_nonzero', 'any', 'all'):
                return E
            return ARR
        if root == 'numpy':
            return ARR
        if root == 'random':
            if fn in ('sample', 'choices'):
                return cont(elem(args[0])) if args else E
            if fn == 'choice':
                return elem(args[0]) if args else E
            return NUM
        if root == 'math':
            return NUM
        return E

    def call(self, f, args, kws, e, ctor=False):
        self.visited.add((f.mod.name, f.qual))
        if len(self.stack) > 40 or any(x[0] is f for x in self.stack[-12:]) and \
                sum(x[0] is f for x in self.stack) > 2:
            return E
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        for i, v in enumerate(args):
            if i < len(names):
                env[names[i]] = v
            elif a.vararg:
                env[a.vararg.arg] = env.get(a.vararg.arg, cont(E)) | cont(v)
        extra = E
        for k, v in kws.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            elif k is not None:
                extra |= v
        if a.kwarg:
            env[a.kwarg.arg] = cont(extra)
        for x, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [
                (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if x not in env:
                env[x] = self.ev(d, {})
        ctor = ctor or self.stack[-1][2]
        key = (f, ctor, frozenset(env.items()))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = E
        self.frame(f, f.mod, ctor)
        self.quiet(f.node.body, env)
        r = merge(self.stack.pop()[3][0])
        self.memo[key] = r
        return r
