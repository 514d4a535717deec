"""Lowering of Python source to value-graph terms (gated SSA, interprocedural).

Abstract interpretation over terms: every statement is visited a bounded number
of times, branches are merged with if-then-else gates, loops are summarised by
solving their recurrences into binders (sum, comprehension, any, first, max,
fold).  No path is enumerated and no input is ever chosen.
"""
import ast
from . import terms as tm
from .terms import (T, mk, TRUE, FALSE, NONE, UNDEF, ZERO, ONE, INF, NINF, num, const,
                    var, sym, app, unk, typ, kind, ite, nt, conj, disj, truth, idx,
                    store, length, cat, lit, tab, ftab, flat, tsum, tany, tall, first,
                    mmof, scat, mem, subst, add, sub, mul, div, neg, eq, le, lt,
                    seqslice, askind, restrict, lift)
from .pyfront import Program, Module, Class, Func


class Dead(Exception):
    """The current path raised."""


class Limit(Exception):
    """Analysis budget exhausted: answer is 'undecided'."""


class Eff:
    __slots__ = ('kind', 'args', 'g', 'qs', 'site')

    def __init__(self, kind, args, g, site, qs=()):
        self.kind, self.args, self.g, self.site = kind, tuple(args), g, site
        self.qs = list(qs)

    def __repr__(self):
        return '%s(%s) if %s %s @%s' % (self.kind, ', '.join(map(str, self.args)), self.g,
                                        ['%s<%s' % q for q in self.qs], self.site)


class Frame:
    _n = 0

    def __init__(self, func, mod, cls, selfv=None):
        self.func, self.mod, self.cls, self.selfv = func, mod, cls, selfv
        self.globals = set()
        self.nonlocals = set()
        Frame._n += 1
        self.id = Frame._n


class State:
    __slots__ = ('env', 'heap', 'g', 'org', 'fr')

    def __init__(self, env, heap, g, org, fr):
        self.env, self.heap, self.g, self.org, self.fr = env, heap, g, org, fr

    def clone(self):
        return State(dict(self.env), dict(self.heap), self.g, dict(self.org), self.fr)


class Outs:
    __slots__ = ('next', 'ret', 'brk', 'cont')

    def __init__(self, nxt=None):
        self.next = nxt
        self.ret, self.brk, self.cont = [], [], []


class LoopInfo:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Interp:
    opaque_while = False

    def __init__(self, prog, stubs=None, maxdepth=30, trace_reads=False):
        self.prog = prog
        self.extvals = {}
        self.stubs = stubs or {}
        self.fastprobe = self.discover = False
        self.trace = []
        self.loops = []
        self.site = None
        self.watch = frozenset()   # attributes whose writes are recorded
        self.handlers = []         # (try statement, handler, its condition)
        self.tries = []            # try statements around the analysed statement
        self.depth = 0
        self.maxdepth = maxdepth
        self.nalloc = 0
        self.nsteps = 0
        self.maxsteps = 400000
        self.ncounter = {}
        self.callstack = []
        self.visited = set()       # function quals analysed
        self.notes = []
        self.index_errors = False
        self.trace_reads = trace_reads
        self.probing = 0
        self.sitecalls = 0
        self.keep_asserts = True
        self.loopks = []
        from . import lib
        self.lib = lib

    # ------------------------------------------------------------ helpers
    def fresh_state(self, mod=None):
        return State({}, {}, TRUE, {}, Frame(None, mod, None))

    def counter(self, k):
        self.ncounter[k] = self.ncounter.get(k, 0) + 1
        return self.ncounter[k]

    def eff(self, kind_, args, st, node=None, g=None):
        site = self.where(node, st)
        self.trace.append(Eff(kind_, args, st.g if g is None else g, site))

    def where(self, node, st):
        if node is not None and hasattr(node, 'lineno'):
            ln = node.lineno
        else:
            ln = self.site
        m = st.fr.mod
        f = st.fr.func
        return ((m.path if m else '?'), ln, f.qual if f else '<module>')

    def box(self, t, st):
        self.nalloc += 1
        st.heap[self.nalloc] = ('box', t)
        return mk('ref', self.nalloc)

    def newobj(self, cls, st, fields=None):
        self.nalloc += 1
        st.heap[self.nalloc] = ('obj', cls, dict(fields or {}))
        return mk('ref', self.nalloc)

    def D(self, v, st):
        """contents of a reference (one level)."""
        if v.op == 'ref':
            h = st.heap.get(v.a[0])
            if h is None:
                return unk('dangling')
            if h[0] == 'box':
                return h[1]
            return v
        if v.op == 'ite':
            return ite(v.a[0], self.D(v.a[1], st), self.D(v.a[2], st))
        return v

    def freeze(self, v, st, only=None, depth=0):
        """replace references to boxes by their contents, deeply."""
        if v.op == 'ref':
            if only is not None and v.a[0] not in only:
                return v
            h = st.heap.get(v.a[0])
            if h is None or depth > 12:
                return v
            if h[0] == 'box':
                return self.freeze(h[1], st, only, depth + 1)
            if h[1].__class__ is Class or isinstance(h[1], str):
                if only is not None and isinstance(h[1], Class):
                    return v
                return v
            return v
        if not any(x.op == 'ref' for x in tm.walk(v)):
            return v
        return tm.mapterm(v, lambda x: self.freeze(x, st, only, depth + 1)
                          if x.op == 'ref' else x)

    # ------------------------------------------------------------ merging
    def join(self, s1, s2):
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        g = disj(s1.g, s2.g)
        d = restrict(s1.g, g)
        if d.op != 'b' and tm.isatom_bool(d) is False and d.op == 'ite':
            d2 = nt(restrict(s2.g, g))
            if _size(d2) < _size(d):
                d = d2
        env = {}
        for k in set(s1.env) | set(s2.env):
            a, b = s1.env.get(k, UNDEF), s2.env.get(k, UNDEF)
            env[k] = a if a is b else self.mkite(d, a, b)
        heap = {}
        for k in set(s1.heap) | set(s2.heap):
            a, b = s1.heap.get(k), s2.heap.get(k)
            if a is b or b is None:
                heap[k] = a
            elif a is None:
                heap[k] = b
            elif a[0] == 'box':
                heap[k] = a if a[1] is b[1] else ('box', self.mkite(d, a[1], b[1]))
            else:
                fl = {}
                for f in set(a[2]) | set(b[2]):
                    x, y = a[2].get(f, UNDEF), b[2].get(f, UNDEF)
                    fl[f] = x if x is y else self.mkite(d, x, y)
                heap[k] = ('obj', a[1], fl)
        org = {k: v for k, v in s1.org.items() if s2.org.get(k) == v}
        return State(env, heap, g, org, s1.fr)

    def mkite(self, d, a, b):
        return ite(d, a, b)

    def joinall(self, sts):
        r = None
        for s in sts:
            r = self.join(r, s)
        return r

    # ------------------------------------------------------------ statements
    def exec_block(self, body, st):
        out = Outs(st)
        for node in body:
            if out.next is None:
                break
            st = out.next
            g0 = st.g
            o = self.exec_stmt(node, st)
            out.ret += o.ret
            out.brk += o.brk
            out.cont += o.cont
            out.next = o.next
            if out.next is not None and (o.ret or o.brk or o.cont):
                ex = FALSE
                for s in [x[1] for x in o.ret] + o.brk + o.cont:
                    ex = disj(ex, s.g)
                out.next.g = conj(g0, nt(ex))
            elif out.next is not None:
                out.next.g = g0
        return out

    def exec_stmt(self, node, st):
        self.nsteps += 1
        if self.nsteps > self.maxsteps:
            raise Limit('steps')
        self.site = getattr(node, 'lineno', self.site)
        m = getattr(self, 'x_' + type(node).__name__, None)
        if m is None:
            self.notes.append(('unsupported', type(node).__name__, self.where(node, st)))
            self.havoc_stmt(node, st)
            return Outs(st)
        try:
            return m(node, st)
        except Dead:
            return Outs(None)

    def havoc_stmt(self, node, st):
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                st.env[x.id] = unk('unsupported ' + type(node).__name__)

    def x_Expr(self, node, st):
        if isinstance(node.value, (ast.Yield, ast.YieldFrom)):
            self.do_yield(node.value, st)
            return Outs(st)
        self.eval(node.value, st)
        return Outs(st)

    def do_yield(self, y, st):
        r = st.env.get('$yield')
        c = self.D(r, st)
        if isinstance(y, ast.Yield):
            v = self.eval(y.value, st) if y.value else NONE
            st.heap[r.a[0]] = ('box', cat('L', c, lit('L', v)))
        else:
            v = self.D(self.eval(y.value, st), st)
            st.heap[r.a[0]] = ('box', cat('L', c, askind('L', v)))

    def x_Pass(self, node, st):
        return Outs(st)

    def x_Import(self, node, st):
        for a in node.names:
            nm = a.asname or a.name.split('.')[0]
            dotted = a.name if a.asname else a.name.split('.')[0]
            st.env[nm] = mk('ext', dotted)
        return Outs(st)

    def x_ImportFrom(self, node, st):
        m = Module('<tmp>', st.fr.mod.path if st.fr.mod else '?',
                   ast.Module(body=[node], type_ignores=[]), '')
        m.name = st.fr.mod.name if st.fr.mod else '<tmp>'
        for a in node.names:
            nm = a.asname or a.name
            st.env[nm] = self.wrap(self.prog.resolve(m, nm), st)
        return Outs(st)

    def x_Global(self, node, st):
        st.fr.globals |= set(node.names)
        return Outs(st)

    def x_Nonlocal(self, node, st):
        st.fr.nonlocals |= set(node.names)
        return Outs(st)

    def x_FunctionDef(self, node, st):
        f = Func(node.name, node, st.fr.mod, None, closure=(st.fr, st.env))
        f.outer = st.fr
        st.env[node.name] = mk('fnv', f)
        return Outs(st)

    def x_ClassDef(self, node, st):
        c = st.fr.mod.defs.get(node.name)
        if not isinstance(c, Class):
            c = Class(node.name, node, st.fr.mod)
        st.env[node.name] = mk('clsv', c)
        return Outs(st)

    def x_Return(self, node, st):
        v = self.eval(node.value, st) if node.value is not None else NONE
        o = Outs(None)
        o.ret.append((v, st))
        return o

    def x_Break(self, node, st):
        o = Outs(None)
        o.brk.append(st)
        return o

    def x_Continue(self, node, st):
        o = Outs(None)
        o.cont.append(st)
        return o

    def x_Raise(self, node, st):
        nm = 'reraise'
        if node.exc is not None:
            e = node.exc
            if isinstance(e, ast.Call):
                e = e.func
            nm = ast.unparse(e)
        self.eff('raise', (const(nm),), st, node)
        return Outs(None)

    def x_Assert(self, node, st):
        c = truth(self.dtruth(self.eval(node.test, st), st))
        self.eff('assert', (c,), st, node)
        return Outs(st)

    def x_Assign(self, node, st):
        v = self.eval(node.value, st)
        for t in node.targets:
            self.assign(t, v, st, node.value)
        return Outs(st)

    def x_AnnAssign(self, node, st):
        if node.value is not None:
            self.assign(node.target, self.eval(node.value, st), st, node.value)
        return Outs(st)

    def x_AugAssign(self, node, st):
        t = node.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
        elif isinstance(t, ast.Attribute):
            cur = self.eval(ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t), st)
        else:
            cur = self.eval(ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t), st)
        v = self.eval(node.value, st)
        dc = self.D(cur, st)
        kd = kind(dc)
        dv = self.D(v, st)
        if cur.op == 'ref' and kd in ('L', 'A', 'S'):
            if kd == 'L' and isinstance(node.op, ast.Add):
                new = cat('L', dc, askind('L', self.seq(dv, st)))
            else:
                new = self.binop(node.op, dc, dv, st, node)
            self.setbox(cur, new, st)
            if isinstance(t, ast.Subscript) and any(
                    isinstance(x, ast.Slice) or kind(self.D(self.eval(x, st), st)) in ('L', 'A')
                    for x in (t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice])):
                # part of an array: the result is stored in it
                self.assign(t, new, st, None)
            return Outs(st)
        if kd == 'L' and isinstance(node.op, ast.Add):
            new = cat('L', dc, askind('L', self.seq(dv, st)))
        else:
            new = self.binop(node.op, dc, dv, st, node)
        self.assign(t, self.rebox(new, st) if not isinstance(t, ast.Subscript) else new,
                    st, None)
        return Outs(st)

    def rebox(self, v, st):
        if kind(v) in ('L', 'A', 'D', 'S') and v.op != 'ref':
            return self.box(v, st)
        return v

    def x_Delete(self, node, st):
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                i = self.index(t.slice, st)
                b = self.eval(t.value, st)
                c = self.D(b, st)
                if i.op == 'slice3':
                    if i.a[0] is NONE and i.a[1] is NONE:
                        new = lit('L')
                    else:
                        new = unk('del slice')
                else:
                    new = self.delat(c, i)
                self.put(t.value, b, new, st)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
        return Outs(st)

    def delat(self, c, i):
        if c.op == 'ite' or i.op == 'ite':
            r = lift(self.delat, c, i)
            if r is not None:
                return r
        if c.op == 'lit' and i.op == 'n':
            xs = list(c.a[1:])
            try:
                del xs[int(i.a[0])]
                return mk('lit', c.a[0], *xs)
            except IndexError:
                return unk('del index')
        if c.op == 'store' and c.a[1] is i:
            return mk('delat', c.a[0], i)
        return mk('delat', c, i)

    def x_If(self, node, st):
        c = truth(self.dtruth(self.eval(node.test, st), st))
        c = restrict(c, st.g) if st.g.op != 'b' else c
        if c is TRUE:
            return self.exec_block(node.body, st)
        if c is FALSE:
            return self.exec_block(node.orelse, st)
        s1, s2 = st.clone(), st.clone()
        s1.g, s2.g = conj(st.g, c), conj(st.g, nt(c))
        if s1.g is FALSE:
            return self.exec_block(node.orelse, st)
        if s2.g is FALSE:
            return self.exec_block(node.body, st)
        o1 = self.exec_block(node.body, s1)
        o2 = self.exec_block(node.orelse, s2)
        o = Outs(self.join(o1.next, o2.next))
        o.ret = o1.ret + o2.ret
        o.brk = o1.brk + o2.brk
        o.cont = o1.cont + o2.cont
        return o

    def x_With(self, node, st):
        for it in node.items:
            v = self.eval(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, None)
        return self.exec_block(node.body, st)

    def x_Try(self, node, st):
        pre = st.clone()
        m0 = len(self.trace)
        self.tries.append(node)
        try:
            o = self.exec_block(node.body, st)
        finally:
            self.tries.pop()
        if o.next is not None and node.orelse:
            o2 = self.exec_block(node.orelse, o.next)
            o2.ret = o.ret + o2.ret
            o2.brk = o.brk + o2.brk
            o2.cont = o.cont + o2.cont
            o = o2
        m1 = len(self.trace)
        raised = [e for e in self.trace[m0:m1] if e.kind in ('raise', 'assert')]
        for h in node.handlers:
            excn = ast.unparse(h.type) if h.type is not None else ''
            e = sym('exc@%s:%s' % (self.counter('exc'), excn), 'bool')
            s = pre.clone()
            # locations changed in the body are unknown on entry to the handler
            if o.next is not None:
                self.havoc_diff(s, pre, o.next, 'exc')
            s.g = conj(pre.g, e)
            self.handlers.append((node, h, e))
            if h.name:
                s.env[h.name] = unk('exception')
            oh = self.exec_block(h.body, s)
            if oh.next is not None:
                if o.next is None:
                    o.next = oh.next
                else:
                    n2 = o.next.clone()
                    n2.g = conj(o.next.g, nt(e))
                    j = self.join(oh.next, n2)
                    o.next = j
            o.ret = [(v, self._gg(s2, nt(e))) for v, s2 in o.ret] if oh.next or oh.ret else o.ret
            o.ret += oh.ret
            o.brk += oh.brk
            o.cont += oh.cont
        if node.finalbody and o.next is not None:
            of = self.exec_block(node.finalbody, o.next)
            o.next = of.next
            o.ret += of.ret
        return o

    def _gg(self, s, c):
        s = s.clone()
        s.g = conj(s.g, c)
        return s

    def havoc_diff(self, s, a, b, why):
        for k, v in b.env.items():
            if a.env.get(k) is not v:
                s.env[k] = unk(why + ':' + k)
        for k, h in b.heap.items():
            ha = a.heap.get(k)
            if ha is None:
                s.heap[k] = h
                continue
            if ha is h:
                continue
            if h[0] == 'box':
                if ha[1] is not h[1]:
                    s.heap[k] = ('box', unk(why))
            else:
                fl = dict(ha[2])
                for f, v in h[2].items():
                    if fl.get(f) is not v:
                        fl[f] = unk(why + ':' + f)
                s.heap[k] = ('obj', h[1], fl)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, src=None):
        if isinstance(t, ast.Name):
            if t.id in st.fr.globals:
                st.heap.setdefault(('g', st.fr.mod.name), ('obj', 'globals', {}))
                h = st.heap[('g', st.fr.mod.name)]
                fl = dict(h[2])
                fl[t.id] = v
                st.heap[('g', st.fr.mod.name)] = ('obj', h[1], fl)
                return
            st.env[t.id] = v
            st.org.pop(t.id, None)
            if src is not None and v.op != 'ref' and kind(v) in ('L', 'A', 'D'):
                o = self.origin_of(src, st)
                if o is not None:
                    st.org[t.id] = o
        elif isinstance(t, (ast.Tuple, ast.List)):
            dv = self.D(v, st)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                n = len(t.elts)
                p = star[0]
                for i in range(p):
                    self.assign(t.elts[i], self.getidx(dv, num(i), st), st)
                rest = n - p - 1
                hi = NONE if rest == 0 else num(-rest)
                self.assign(t.elts[p].value, self.box(
                    askind('L', seqslice(dv, num(p), hi, None)), st), st)
                for j in range(rest):
                    self.assign(t.elts[p + 1 + j], self.getidx(dv, num(j - rest), st), st)
                return
            for i, x in enumerate(t.elts):
                self.assign(x, self.getidx(dv, num(i), st), st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            self.setattr_(o, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            i = self.index(t.slice, st)
            c = self.D(b, st)
            if c.op == 'ref' or (isinstance(typ(c), tuple) and typ(c)[0] == 'obj'):
                self.call_method(c, '__setitem__', [i, v], {}, st, t)
                return
            if kind(c) == 'A':
                v = self.freeze(v, st)
            new = self.store_multi(c, self.ilist(i, c), v, st)
            if callable(self.trace_reads):
                self.trace_reads(b, i, st, t)
            elif self.trace_reads:
                self.eff('store', (c, i), st, t)
            self.put(t.value, b, new, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def origin_of(self, e, st):
        if isinstance(e, ast.Subscript):
            try:
                b = self.eval(e.value, st)
            except Dead:
                return None
            i = self.index(e.slice, st)
            if b.op == 'ref' and i.op not in ('lit', 'slice3'):
                return (b, (i,))
        return None

    def put(self, expr, b, new, st):
        """store new contents into the container denoted by expr (value b)."""
        if b.op in ('ref', 'ite') and self.setbox(b, new, st):
            return
        if isinstance(expr, ast.Name):
            o = st.org.get(expr.id)
            if o is not None:
                ref, path = o
                c = self.D(ref, st)
                if idx(c, path[0]) is b:
                    self.setbox(ref, store(c, path[0], new), st)
            if expr.id in st.env:
                st.env[expr.id] = new
            return
        if isinstance(expr, ast.Attribute):
            self.setattr_(self.eval(expr.value, st), expr.attr, new, st, expr)
            return
        if isinstance(expr, ast.Subscript):
            b2 = self.eval(expr.value, st)
            i = self.index(expr.slice, st)
            c = self.D(b2, st)
            self.put(expr.value, b2, self.store_multi(c, self.ilist(i, c), new, st), st)
            return
        self.notes.append(('lost store', ast.unparse(expr), self.where(expr, st)))

    def setbox(self, b, new, st):
        if b.op == 'ref':
            h = st.heap.get(b.a[0])
            if h is not None and h[0] == 'box':
                st.heap[b.a[0]] = ('box', new)
                return True
            return False
        if b.op == 'ite':
            ok = False
            for g, l in tm.leafs(b, TRUE):
                if l.op == 'ref':
                    h = st.heap.get(l.a[0])
                    if h is not None and h[0] == 'box':
                        nw = restrict(new, g)
                        st.heap[l.a[0]] = ('box', ite(g, nw, h[1]))
                        ok = True
            return ok
        return False

    def ilist(self, i, c):
        if i.op == 'lit' and i.a[0] == 'U' and kind(c) != 'D':
            return list(i.a[1:])
        return [i]

    def store_multi(self, c, ix, v, st):
        if not ix:
            dv = self.D(v, st)
            return v
        i, rest = ix[0], ix[1:]
        if i.op == 'slice3':
            lo, hi, step = i.a
            if lo is NONE and hi is NONE and step is NONE:
                n = length(c)
                k = var('k', 'int')
                tm.UPPER[k] = n
                dv = self.freeze(v, st)
                e = idx(dv, k) if kind(dv) in ('A', 'L', 'U') else dv
                return tab(kind(c) or 'L', n, k, self.store_multi(idx(c, k), rest, e, st))
            return unk('slice store')
        if not rest:
            if kind(i) in ('L', 'A'):
                if elem_is_bool(i):
                    n = length(c)
                    k = var('k', 'int')
                    tm.UPPER[k] = n
                    if kind(v) is None:
                        return tab(kind(c) or 'L', n, k, ite(idx(i, k), v, idx(c, k)))
                    return unk('mask store')
                k = var('k', 'int')
                n = length(i)
                tm.UPPER[k] = n
                dv = self.freeze(v, st)
                e = idx(dv, k) if kind(dv) in ('A', 'L', 'U') else dv
                return scat(c, n, k, idx(i, k), e, TRUE)
            return store(c, i, v)
        return store(c, i, self.store_multi(idx(c, i), rest, v, st))

    # ------------------------------------------------------------ for loops
    def x_For(self, node, st):
        itv = self.eval(node.iter, st)
        return self.iterate(itv, node.target, st,
                            lambda s: self.exec_block(node.body, s), node, node.orelse)

    def iterate(self, itv, target, st, bodyfn, node, orelse=()):
        lv = self.levels(itv, st)
        if lv is None:
            self.notes.append(('unknown iterable', str(itv)[:80], self.where(node, st)))
            n = unk('len')
            lv = [(n, None, lambda k: unk('elem', itv, k), None)]
        if lv and isinstance(lv, tuple) and lv[0] == 'lit':
            # literal: unroll
            xs = lv[1]
            out = Outs(None)
            cur = st
            g0 = st.g
            brks = []
            for x in xs:
                if cur is None:
                    break
                self.assign(target, x, cur, None)
                gs = cur.g
                o = bodyfn(cur)
                out.ret += o.ret
                brks += o.brk
                nx = self.joinall([o.next] + o.cont)
                if nx is not None:
                    ex = FALSE
                    for s in [y[1] for y in o.ret] + o.brk:
                        ex = disj(ex, s.g)
                    nx.g = conj(gs, nt(ex))
                cur = nx
            if cur is not None and orelse:
                o = self.exec_block(orelse, cur)
                out.ret += o.ret
                out.brk += o.brk
                out.cont += o.cont
                cur = o.next
            out.next = self.joinall([cur] + brks)
            return out

        def run(levels, s):
            n, orig, elem, cond = levels[0]
            rest = levels[1:]

            def body(s2, k):
                if rest:
                    nxt = rest[0](k) if callable(rest[0]) else rest[0]
                    return run([nxt] + list(rest[1:]), s2)
                e = elem(k)
                self.assign(target, e, s2, None)
                if orig is not None and isinstance(target, ast.Name) and e.op != 'ref' and \
                        kind(e) in ('L', 'A', 'D'):
                    s2.org[target.id] = (orig, (k,))
                return bodyfn(s2)
            return self.run_loop(n, body, s, cond, node)
        out = run(lv, st)
        if orelse and out.next is not None:
            if out.next is not None:
                return self._loop_else(out, orelse, st)
        return out

    def _loop_else(self, out, orelse, st):
        # run_loop stores the normal/broken split on the Outs object
        norm = getattr(self, '_last_norm', None)
        if norm is None:
            o = self.exec_block(orelse, out.next)
            o.ret = out.ret + o.ret
            return o
        nst, bst = norm
        o = self.exec_block(orelse, nst)
        o.ret = out.ret + o.ret
        o.next = self.join(o.next, bst)
        return o

    def levels(self, itv, st):
        """Describe an iterable: list of nested loop levels or ('lit', [...])."""
        itv = drop_none(itv)
        v = self.D(itv, st)
        op = v.op
        ref = itv if itv.op == 'ref' else None
        if op == 'range3':
            lo, hi, step = v.a
            n = range_len(lo, hi, step)
            if n.op == 'n' and n.a[0] <= 8:
                return ('lit', [add(lo, mul(step, num(i))) for i in range(max(0, int(n.a[0])))])
            return [(n, None, lambda k: add(lo, mul(step, k)), None)]
        if op == 'lit' and v.a[0] != 'D':
            if len(v.a) - 1 <= 2048:
                return ('lit', list(v.a[1:]))
            return None
        if op == 'lit':
            return ('lit', [num(i) for i in range(len(v.a) - 1)])
        if op == 'enum':
            inner = self.levels(v.a[0], st)
            s0 = v.a[1]
            if inner is None:
                return None
            if isinstance(inner, tuple):
                return ('lit', [lit('U', add(s0, num(i)), x) for i, x in enumerate(inner[1])])
            if len(inner) == 1 and inner[0][3] is None:
                n, o, e, c = inner[0]
                return [(n, None, lambda k: lit('U', add(s0, k), e(k)), None)]
            # enumerate over filtered/flattened list: treat the list as opaque
            x = self.freeze(self.D(v.a[0], st), st)
            return [(length(x), None, lambda k: lit('U', add(s0, k), idx(x, k)), None)]
        if op == 'zip':
            xs = [self.aslist(x, st) for x in v.a]
            if any(x is None for x in xs):
                return None
            if all(x.op == 'lit' for x in xs):
                m = min(len(x.a) for x in xs) - 1
                return ('lit', [lit('U', *[x.a[1 + i] for x in xs]) for i in range(m)])
            n = self.ziplen(xs)
            return [(n, None, lambda k: lit('U', *[idx(x, k) for x in xs]), None)]
        if op == 'items':
            d = self.D(v.a[0], st)
            ks = self.dictkeys(d, st)
            if ks is None:
                return None
            if ks is not None and ks[0] == 'lit':
                return ('lit', [lit('U', x, self.getidx(d, x, st)) for x in ks[1]])
            n, key, cond = ks
            return [(n, None, lambda k: lit('U', key(k), idx(d, key(k))), cond)]
        if op == 'values':
            d = self.D(v.a[0], st)
            ks = self.dictkeys(d, st)
            if ks is None:
                return None
            if ks is not None and ks[0] == 'lit':
                return ('lit', [self.getidx(d, x, st) for x in ks[1]])
            n, key, cond = ks
            return [(n, None, lambda k: idx(d, key(k)), cond)]
        if kind(v) == 'D':
            ks = self.dictkeys(v, st)
            if ks is None:
                return None
            if ks is not None and ks[0] == 'lit':
                return ('lit', list(ks[1]))
            n, key, cond = ks
            return [(n, None, key, cond)]
        if op == 'as':
            return self.levels(v.a[1], st)
        if op == 'ftab':
            def mkc(vv):
                w, n, c, b = tm.opn(vv)
                return (n, None, lambda k: subst(b, {w: k}), lambda k: subst(c, {w: k}))
            return [mkc(v)]
        if op == 'flat':
            w, n, b = tm.opn(v)

            def inner(k):
                r = self.levels(subst(b, {w: k}), st)
                if isinstance(r, tuple):
                    xs = r[1]
                    return (num(len(xs)), None, lambda j: idx(lit('L', *xs), j), None)
                if r is None or len(r) != 1:
                    x = subst(b, {w: k})
                    return (length(x), None, lambda j: idx(x, j), None)
                return r[0]
            return [(n, None, None, None), inner]
        if op == 'cat':
            x = v
            return [(length(x), ref, lambda k: idx(x, k), None)]
        if op in ('ite',):
            return [(length(v), ref, lambda k: idx(v, k), None)]
        if kind(v) in ('L', 'A', 'U', 'S') or op in ('sort', 'scat', 'store', 'tab'):
            return [(length(v), ref, lambda k: idx(v, k), None)]
        if op == 'unk':
            return None
        if op in ('idx', 'sym', 'var', 'app', 'B') and typ(v) in ('any',):
            return [(length(v), ref, lambda k: idx(v, k), None)]
        return None

    def ziplen(self, xs):
        n = None
        for x in xs:
            l = INF if x.op == 'countfrom' else length(x)
            n = l if n is None else (n if n is l else tm.tmin(n, l))
        return n

    def dictkeys(self, d, st):
        """('lit', keys) or (n, keyfn, condfn) or None."""
        if d.op == 'dict0':
            return ('lit', [])
        if d.op == 'store' and kind(d) == 'D':
            b = self.dictkeys(d.a[0], st)
            if b is not None and b[0] == 'lit':
                if d.a[1] in b[1]:
                    return b
                return ('lit', b[1] + [d.a[1]])
            return None
        if d.op == 'scat' and d.a[1].op == 'dict0':
            w, n, key, val, cond = tm.opn(d)
            return (n, lambda k: subst(key, {w: k}),
                    (lambda k: subst(cond, {w: k})) if cond is not TRUE else None)
        if d.op in ('tab', 'lit'):
            return (length(d), lambda k: k, None) if d.op == 'tab' else \
                ('lit', [num(i) for i in range(len(d.a) - 1)])
        if d.op in ('sym', 'idx', 'app', 'var') and kind(d) == 'D':
            ks = app('keys', ('L', 'any'), d)
            return (length(ks), lambda k: idx(ks, k), None)
        return None

    def aslist(self, v, st):
        """materialise an iterable as a sequence term."""
        lv = self.levels(v, st)
        if lv is None:
            return None
        if isinstance(lv, tuple):
            return lit('L', *lv[1])
        if len(lv) == 1:
            n, o, e, c = lv[0]
            k = var('k', 'int')
            tm.UPPER[k] = n
            if c is None:
                return tab('L', n, k, e(k))
            return ftab('L', n, k, c(k), e(k))
        d = self.D(v, st)
        return askind('L', d)

    def seq(self, v, st):
        """sequence view of a value for len/sum/etc."""
        d = self.D(v, st)
        if d.op in ('range3', 'enum', 'zip', 'items', 'values') or kind(d) == 'D':
            r = self.aslist(d, st)
            return r if r is not None else unk('seq')
        return d

    def run_loop(self, n, bodyfn, st, condfn, node, unbounded=False, testfn=None):
        """Summarise a loop with trip count n (or a while loop)."""
        self._last_norm = None
        n = tm._clampn(n)
        if n is ZERO:
            return Outs(st)
        g0 = st.g
        k = var('k', 'int')
        tm.UPPER[k] = n
        cond = condfn(k) if condfn is not None else TRUE
        carried = {}
        mark = len(self.trace)
        lmark = len(self.loops)
        heap0 = set(st.heap)
        self.probing += 1
        for _pass in range(8):
            del self.trace[mark:]
            del self.loops[lmark:]
            s = st.clone()
            s.g = TRUE
            for loc, phi in carried.items():
                self.setloc(s, loc, phi)
            start = s.clone()
            if testfn is not None:
                tc = testfn(s)
                stest = s.clone()
            self.loopks.append(k)
            fp0 = self.discover
            self.discover = fp0 or (self.fastprobe and _pass == 0)
            try:
                outs = bodyfn(s, k)
            finally:
                self.loopks.pop()
                self.discover = fp0
            endst = self.joinall([outs.next] + outs.cont)
            ends = [x for x in [endst] + outs.brk + [r[1] for r in outs.ret] if x is not None]
            if testfn is not None:
                ends.append(stest)
            new = {}
            for e in ends:
                for loc, (a, b) in self.diff(start, e, heap0).items():
                    if loc not in carried and loc not in new:
                        new[loc] = (a, b)
            if not new and not (self.fastprobe and _pass == 0 and not fp0):
                break
            for loc, (a, b) in new.items():
                if loc[0] == 'env' and a is UNDEF and not self.read_before_write(node, loc[1]):
                    # purely local to an iteration
                    carried[loc] = UNDEF
                    continue
                a2 = self.freeze(a, st) if loc[0] != 'env' or a.op == 'ref' else a
                ty = typ(a2)
                tb = typ(self.freeze(b, ends[0]))
                if a is UNDEF or ty in ('any', 'none'):
                    ty = tb
                elif isinstance(ty, tuple) and len(ty) > 1 and ty[1] in ('any', 'undef'):
                    ty = tb if isinstance(tb, tuple) else ty
                if ty == 'int' and tb != 'int' and tb in ('num', 'int'):
                    ty = 'num'
                if ty == 'num' and tm.isint(a2) and tb in ('num', 'int') and \
                        a2.op == 'n':
                    ty = 'int' if tm.isint(b) or b.op in ('p', 'ite') and tm.isint(
                        b) else 'num'
                dm = None
                if isinstance(ty, tuple) and ty[0] in 'LA':
                    # length preserved?
                    try:
                        la = length(a2)
                        lb = length(self.freeze(b, ends[0]))
                        if la is lb and la.op != 'len' and k not in la.fv:
                            dm = self.shape_of(a2)
                    except Exception:
                        dm = None
                carried[loc] = var('phi:' + str(loc[-1]), ty, dm)
            if fp0:
                # only the changed locations are wanted: they become arbitrary
                self.probing -= 1
                out = Outs(st.clone())
                for loc, p in carried.items():
                    self.setloc(out.next, loc, var('last', 'any') if p is UNDEF else p)
                for v, s2 in outs.ret:
                    out.ret.append((v, s2))
                out.next.g = g0
                return out
        else:
            self.notes.append(('loop fixpoint', '', self.where(node, st)))
        self.probing -= 1
        phis = {loc: p for loc, p in carried.items() if p is not UNDEF}
        init = {loc: self.getloc(st, loc) for loc in phis}
        # integer-typed phis: check
        fin = {}
        for loc, p in phis.items():
            if endst is None:
                f = p
            else:
                f = self.getloc(endst, loc)
                f = self.freeze(f, endst, only=self.newids(endst, heap0))
                f = self.objfreeze(f)
            if cond is not TRUE:
                f = ite(cond, f, p)
            if p.op == 'var' and init[loc].op == 'ref' and kind(init[loc]) is None:
                pass
            fin[loc] = f
        info = LoopInfo(node=node, site=self.where(node, st), n=n, k=k, phis=dict(phis),
                        init=dict(init), step=dict(fin), outs=outs, start=st.clone(),
                        eff=None, test=None, func=st.fr.func, cond=cond,
                        carried=dict(carried), endst=endst)
        if testfn is not None and self.opaque_while:
            info.head = stest
            return self.opaque_exit(info, outs, st, tc, mark, g0, heap0)
        pre = self.solve(phis, init, fin, k, n)
        info.pre = pre
        m = {phis[loc]: pre[loc] for loc in phis}

        def sb(t, at=None):
            r = subst(t, m)
            if at is not None:
                r = subst(r, {k: at})
            return r
        # exit conditions
        ce = FALSE
        for s2 in outs.brk:
            ce = disj(ce, s2.g)
        for _, s2 in outs.ret:
            ce = disj(ce, s2.g)
        rawce = ce
        ce = conj(cond, sb(ce))
        if endst is None and cond is TRUE and not (outs.brk or outs.ret):
            # body always raises
            if testfn is None:
                raise Dead()
        N = n
        if testfn is not None:
            info.test = tc
            e = nt(sb(tc))
            N = trip_count(e, k)
            if N is None:
                N = mk('app', 'whiletrip', 'int', const(len(self.loops)), e) \
                    if k not in e.fv else first(INF, k, e)
            info.n = N
        if endst is None and ce is not TRUE and cond is TRUE:
            ce = TRUE
        K = N
        if ce is not FALSE:
            K = first(N, k, ce)
        tripn = N if ce is FALSE else tm.tmin(add(K, ONE), N)
        # effects
        for e in self.trace[mark:]:
            e.args = tuple(sb(x) for x in e.args)
            e.g = sb(e.g)
            if cond is not TRUE:
                e.g = conj(cond, e.g)
            e.qs = [(k, tripn)] + [(v, sb(x)) for v, x in e.qs]
        info.eff = list(self.trace[mark:])
        self.loops.append(info)
        # heap cells allocated in the body remain visible with last-iteration contents
        base = st
        if endst is not None or outs.brk or outs.ret:
            src = endst or (outs.brk + [r[1] for r in outs.ret])[0]
            for h in src.heap:
                if h not in heap0:
                    hv = src.heap[h]
                    base.heap[h] = hv if hv[0] != 'box' else ('box', sb(
                        self.freeze(hv[1], src, only=self.newids(src, heap0)), sub(K, ONE)))
        out = Outs(None)

        def post_state(at):
            s = base.clone()
            for loc, p in carried.items():
                if p is UNDEF:
                    if endst is not None:
                        v = self.freeze(self.getloc(endst, loc), endst,
                                        only=self.newids(endst, heap0))
                        v = sb(self.objfreeze(v), sub(at, ONE))
                        s.env[loc[1]] = self.reboxv(v, s)
                    continue
                v = subst(pre[loc], {k: at})
                if loc[0] == 'env':
                    v = self.reboxv(v, s)
                self.setloc(s, loc, v)
            s.g = g0
            return s

        if ce is FALSE:
            out.next = post_state(N)
        else:
            exited = lt(K, N)
            if K is N:
                exited = FALSE
            ns = post_state(N)
            ns.g = conj(g0, nt(exited))
            clamp, K1 = tm.tmin(N, add(K, ONE)), add(K, ONE)

            def sbk(t):
                t = sb(t, K)
                if K is not N and clamp is not K1:
                    t = tm.mapterm(t, lambda x: K1 if x is clamp else x)
                return t
            bsts = []
            same = True
            gk = {}
            exits = outs.brk + [r[1] for r in outs.ret]
            rest = TRUE
            for s2 in exits:
                gk[id(s2)] = sb(s2.g, K)
            # some exit guard holds at K: the last one is the complement of the others
            for s2 in exits[:-1]:
                rest = conj(rest, nt(gk[id(s2)]))
            gk[id(exits[-1])] = rest
            for s2 in outs.brk:
                b = base.clone()
                for loc in carried:
                    v = self.freeze(self.getloc(s2, loc), s2, only=self.newids(s2, heap0))
                    v = sbk(self.objfreeze(v))
                    if carried[loc] is not UNDEF and v is not subst(pre[loc], {k: K}):
                        same = False
                    if carried[loc] is UNDEF:
                        pass
                    if loc[0] == 'env':
                        v = self.reboxv(v, b)
                    self.setloc(b, loc, v)
                b.g = conj(g0, exited, gk[id(s2)])
                bsts.append(b)
            if outs.brk and not outs.ret and same:
                # break before any update: plain truncation of the loop
                b = post_state(K)
                for loc, p in carried.items():
                    if p is UNDEF and bsts:
                        b.env[loc[1]] = bsts[0].env.get(loc[1], UNDEF)
                b.g = g0
                out.next = b
                self._last_norm = None
            else:
                bj = self.joinall(bsts)
                self._last_norm = (ns.clone(), bj.clone() if bj is not None else None)
                out.next = self.join(ns, bj) if ns.g is not FALSE else bj
                if out.next is not None and not outs.ret:
                    out.next.g = g0
            for v, s2 in outs.ret:
                r = base.clone()
                for loc in carried:
                    x = self.freeze(self.getloc(s2, loc), s2, only=self.newids(s2, heap0))
                    x = sbk(self.objfreeze(x))
                    if loc[0] == 'env':
                        x = self.reboxv(x, r)
                    self.setloc(r, loc, x)
                vv = sbk(self.objfreeze(self.freeze(v, s2, only=self.newids(s2, heap0))))
                r.g = conj(g0, exited, gk[id(s2)])
                if r.g is not FALSE:
                    out.ret.append((self.reboxv(vv, r), r))
        if g0 is not TRUE:
            for e in self.trace[mark:]:
                e.g = conj(g0, e.g)
        return out

    def opaque_exit(self, info, outs, st, tc, mark, g0, heap0):
        """leave a while loop without solving its recurrences: the carried locations stay
        variables holding their values at the start of the last iteration."""
        info.test = tc
        info.tail = list(self.trace[mark:])
        for e in self.trace[mark:]:
            e.qs = [(info.k, INF)] + e.qs
        info.eff = list(self.trace[mark:])
        self.loops.append(info)
        head = info.head.clone()
        head.heap = dict(head.heap)
        src = info.endst or (outs.brk + [r[1] for r in outs.ret] + [None])[0]
        if src is not None:
            for h in src.heap:
                if h not in heap0 and h not in head.heap:
                    head.heap[h] = src.heap[h]
        head.g = nt(tc)
        exits = [head] if head.g is not FALSE else []
        exits += [s2 for s2 in outs.brk]
        info.exits = [(x.g, x.clone()) for x in exits + [r[1] for r in outs.ret]]
        out = Outs(None)
        cur = None
        for x in reversed(exits):
            x = x.clone()
            if cur is None:
                cur = x
            else:
                cur = self.join(x, cur)
        if cur is not None:
            cur.g = g0
        out.next = cur
        for v, s2 in outs.ret:
            out.ret.append((v, s2))
        return out

    def shape_of(self, x):
        d = tm.dims(x)
        if d:
            return tuple(d)
        l = length(x)
        if kind(x) is None:
            return None
        out = [l]
        ty = typ(x)
        y = x
        if isinstance(ty, tuple) and isinstance(ty[1], tuple) and ty[1][0] in ('A', 'L'):
            kk = var('k', 'int')
            e = idx(y, kk)
            l2 = length(e)
            if kk not in l2.fv and l2.op != 'len':
                out.append(l2)
            else:
                out.append(None)
        return tuple(out)

    def reboxv(self, v, st):
        if v.op not in ('ref', 'undef') and kind(v) in ('L', 'A', 'D', 'S'):
            return self.box(v, st)
        return v

    def objfreeze(self, v):
        return v

    def newids(self, st, heap0):
        return set(h for h in st.heap if h not in heap0)

    def read_before_write(self, node, name):
        """may the loop body read name before assigning it (syntactic, conservative)?"""
        body = getattr(node, 'body', None)
        if body is None or not isinstance(body, list):
            return True
        return _rbw(body, name)

    def getloc(self, st, loc):
        if loc[0] == 'env':
            return st.env.get(loc[1], UNDEF)
        h = st.heap.get(loc[1])
        if h is None:
            return UNDEF
        if loc[0] == 'box':
            return h[1]
        return h[2].get(loc[2], UNDEF)

    def setloc(self, st, loc, v):
        if loc[0] == 'env':
            if v is UNDEF:
                st.env.pop(loc[1], None)
            else:
                st.env[loc[1]] = v
                st.org.pop(loc[1], None)
        elif loc[0] == 'box':
            st.heap[loc[1]] = ('box', v)
        else:
            h = st.heap[loc[1]]
            fl = dict(h[2])
            fl[loc[2]] = v
            st.heap[loc[1]] = ('obj', h[1], fl)

    def diff(self, a, b, heap0):
        out = {}
        for k, v in b.env.items():
            w = a.env.get(k, UNDEF)
            if w is not v:
                out[('env', k)] = (w, v)
        for k in heap0:
            ha, hb = a.heap.get(k), b.heap.get(k)
            if ha is hb or ha is None or hb is None:
                continue
            if ha[0] == 'box':
                if ha[1] is not hb[1]:
                    out[('box', k)] = (ha[1], hb[1])
            else:
                for f in set(ha[2]) | set(hb[2]):
                    x, y = ha[2].get(f, UNDEF), hb[2].get(f, UNDEF)
                    if x is not y:
                        out[('obj', k, f)] = (x, y)
        return out

    # ---- recurrence solving
    def solve(self, phis, init, fin, k, n):
        """closed form of each loop-carried value at the start of iteration k."""
        pre = {}
        todo = dict(phis)
        ini = {}
        for loc in phis:
            v = init[loc]
            ini[loc] = v
        progress = True
        while todo and progress:
            progress = False
            for loc in list(todo):
                f = subst(fin[loc], {phis[l]: pre[l] for l in pre})
                others = frozenset(p for l, p in todo.items() if l != loc)
                if f.fv & others:
                    continue
                r = solve1(f, todo[loc], k, ini[loc])
                if r is None:
                    continue
                pre[loc] = r
                del todo[loc]
                progress = True
        if todo:
            # solve groups by strongly connected dependency: joint fold of the rest
            comps = self._sccs(todo, fin, phis, pre)
            for comp in comps:
                f = {l: subst(fin[l], {phis[x]: pre[x] for x in pre}) for l in comp}
                if len(comp) == 1:
                    r = solve1(f[comp[0]], todo[comp[0]], k, ini[comp[0]])
                    if r is not None:
                        pre[comp[0]] = r
                        continue
                comp = sorted(comp, key=lambda l: (str(l[-1]), str(l)))
                # order canonically by structure: initial value then name-independent id
                vs = [phis[l] for l in comp]
                tys = tuple(canon_ty(p.a[2]) for p in vs)
                for j, l in enumerate(comp):
                    kk = var('k', 'int')
                    bound = [ini[x] for x in comp] + [f[x] for x in comp]
                    bound = [subst(x, {k: kk}) for x in bound]
                    ph2 = [var('phi', t) for t in tys]
                    bound = [subst(x, dict(zip(vs, ph2))) for x in bound]
                    # put the selected component first for canonical identity
                    pre[l] = mk_foldsel(k, tys, [kk] + ph2, bound, j)
        return pre

    def _sccs(self, todo, fin, phis, pre):
        dep = {}
        m = {phis[x]: pre[x] for x in pre}
        for l in todo:
            f = subst(fin[l], m)
            dep[l] = [x for x in todo if phis[x] in f.fv]
        index, low, onst, stack, out = {}, {}, set(), [], []
        cnt = [0]

        def sc(v):
            index[v] = low[v] = cnt[0]
            cnt[0] += 1
            stack.append(v)
            onst.add(v)
            for w in dep[v]:
                if w not in index:
                    sc(w)
                    low[v] = min(low[v], low[w])
                elif w in onst:
                    low[v] = min(low[v], index[w])
            if low[v] == index[v]:
                c = []
                while True:
                    w = stack.pop()
                    onst.discard(w)
                    c.append(w)
                    if w == v:
                        break
                out.append(c)
        for v in todo:
            if v not in index:
                sc(v)
        return out

    # ------------------------------------------------------------ while loops
    def x_While(self, node, st):
        infos = len(self.loops)

        def test(s):
            c = truth(self.dtruth(self.eval(node.test, s), s))
            return c

        def body(s, k):
            c = test(s)
            s.g = conj(s.g, c)
            # the guard of the loop itself holds for every executed iteration
            s.g = TRUE
            return self.exec_block(node.body, s)
        saved = len(self.trace)
        try:
            s0 = st.clone()
            out = self.run_loop(INF, body, st, None, node, testfn=lambda s: test(s.clone()))
        finally:
            pass
        if node.orelse and out.next is not None:
            o2 = self._loop_else(out, node.orelse, st)
            return o2
        return out

    # ------------------------------------------------------------ expressions
    def eval(self, node, st):
        self.nsteps += 1
        if self.nsteps > self.maxsteps:
            raise Limit('steps')
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            self.notes.append(('unsupported', type(node).__name__, self.where(node, st)))
            return unk('expr ' + type(node).__name__)
        return m(node, st)

    def dtruth(self, v, st):
        """value usable in a truth test."""
        d = self.D(v, st)
        if d.op == 'ref':
            return TRUE
        if d.op in ('range3', 'enum', 'zip', 'items', 'values'):
            return self.seq(d, st)
        if d.op == 'ite':
            return lift(lambda x: self.dtruth(x, st), d) or d
        if d.op in ('fnv', 'clsv', 'ext', 'bound', 'meth'):
            return TRUE
        return d

    def e_Constant(self, node, st):
        return const(node.value)

    def e_Name(self, node, st):
        return self.name(node.id, st, node)

    def name(self, nm, st, node=None):
        v = st.env.get(nm)
        if v is not None and nm not in st.fr.globals:
            if v.op == 'ite':
                v2 = drop_undef(v)
                if v2 is not v:
                    self.eff('maybe_undef', (const(nm),), st, node,
                             g=conj(st.g, undef_cond(v)))
                    st.env[nm] = v2
                    v = v2
            if v is UNDEF:
                self.eff('undef_name', (const(nm),), st, node)
                return unk('undefined ' + nm)
            return v
        f = st.fr.func
        cl = getattr(f, 'closure', None)
        while cl is not None:
            fr, env = cl
            cur = self.live_env(fr, env)
            if nm in cur:
                return cur[nm]
            cl = getattr(fr.func, 'closure', None)
        mod = st.fr.mod
        if mod is not None:
            gh = st.heap.get(('g', mod.name))
            if gh is not None and nm in gh[2]:
                return gh[2][nm]
            r = self.prog.resolve(mod, nm)
            if r is not None:
                return self.wrap(r, st)
        if nm in self.lib.BUILTINS:
            return mk('ext', 'builtins.' + nm)
        if nm in ('__name__',):
            return const('__main__')
        if nm == '__file__':
            return sym('__file__', 'str')
        import builtins
        if hasattr(builtins, nm):
            return mk('ext', 'builtins.' + nm)
        self.eff('undef_name', (const(nm),), st, node)
        return unk('undefined ' + nm)

    def live_env(self, fr, env):
        for s in reversed(self.callstack):
            if s[0] is fr:
                return s[1].env
        return env

    def wrap(self, r, st):
        if isinstance(r, Func):
            return mk('fnv', r)
        if isinstance(r, Class):
            return mk('clsv', r)
        if isinstance(r, Module):
            return mk('modv', r)
        if isinstance(r, tuple):
            if r[0] == 'ext':
                return self.extval(r[1])
            if r[0] == 'assign':
                _, expr, mod = r
                s = State({}, st.heap, TRUE, {}, Frame(None, mod, None))
                self.depth += 1
                if self.depth > self.maxdepth:
                    self.depth -= 1
                    return unk('global depth')
                try:
                    return self.eval(expr, s)
                finally:
                    self.depth -= 1
            if r[0] == 'pkg':
                return mk('pkgv', r[1])
        return unk('unresolved')

    def extval(self, dotted):
        c = self.extvals.get(dotted)
        if c is not None:
            return c
        c = self.lib.CONSTS.get(dotted)
        if c is not None:
            return c
        return mk('ext', dotted)

    def e_Attribute(self, node, st):
        v = self.eval(node.value, st)
        return self.getattr_(v, node.attr, st, node)

    def e_NamedExpr(self, node, st):
        v = self.eval(node.value, st)
        self.assign(node.target, v, st, node.value)
        return v

    def e_Starred(self, node, st):
        return unk('starred')

    def e_JoinedStr(self, node, st):
        parts = []
        for x in node.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            else:
                v = self.D(self.eval(x.value, st), st)
                spec = ''
                if x.format_spec is not None:
                    parts.append(self.lib.fmtspec(self.e_JoinedStr(x.format_spec, st), v))
                    continue
                parts.append(tm.fmt(spec, v))
        return tm.tstrcat(*parts)

    def e_FormattedValue(self, node, st):
        return self.e_JoinedStr(ast.JoinedStr(values=[node]), st)

    def e_Tuple(self, node, st):
        return lit('U', *self.elts(node.elts, st))

    def elts(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                s = self.seq(self.eval(x.value, st), st)
                if s.op == 'lit':
                    out += s.a[1:]
                else:
                    out.append(('star', s))
            else:
                out.append(self.eval(x, st))
        if any(isinstance(x, tuple) for x in out):
            return out
        return out

    def e_List(self, node, st):
        es = self.elts(node.elts, st)
        if any(isinstance(x, tuple) for x in es):
            parts = [askind('L', x[1]) if isinstance(x, tuple) else lit('L', x) for x in es]
            return self.box(cat('L', *parts), st)
        return self.box(lit('L', *es), st)

    def e_Set(self, node, st):
        return self.box(lit('S', *self.elts(node.elts, st)), st)

    def e_Dict(self, node, st):
        d = mk('dict0')
        for k, v in zip(node.keys, node.values):
            if k is None:
                return self.box(unk('dict splat'), st)
            kv = self.eval(k, st)
            d = store(d, self.freeze(kv, st), self.eval(v, st))
        return self.box(d, st)

    def has_call(self, node):
        return any(isinstance(x, (ast.Call, ast.NamedExpr, ast.ListComp, ast.GeneratorExp,
                                  ast.SetComp, ast.DictComp)) for x in ast.walk(node))

    def guarded(self, node, c, st):
        """evaluate node only when c holds; merges the heap."""
        if c is FALSE:
            return NONE
        if not self.has_call(node) or c is TRUE:
            return self.eval(node, st)
        s1 = st.clone()
        s1.g = conj(st.g, c)
        g0 = st.g
        try:
            v = self.eval(node, s1)
        except Dead:
            return NONE
        s2 = st.clone()
        s2.g = conj(st.g, nt(c))
        j = self.join(s1, s2)
        st.env, st.heap, st.org = j.env, j.heap, j.org
        st.g = g0
        return v

    def e_BoolOp(self, node, st):
        isand = isinstance(node.op, ast.And)
        v = self.eval(node.values[0], st)
        for x in node.values[1:]:
            c = truth(self.dtruth(v, st))
            w = self.guarded(x, c if isand else nt(c), st)
            if (c is FALSE and isand) or (c is TRUE and not isand):
                return v
            wd = self.D(w, st)
            vd = self.D(v, st)
            if tm.isbool(vd) and tm.isbool(wd):
                v = conj(vd, wd) if isand else disj(vd, wd)
            elif isand:
                v = ite(c, w, v)
            else:
                v = ite(c, v, w)
        return v

    def e_UnaryOp(self, node, st):
        v = self.D(self.eval(node.operand, st), st)
        if isinstance(node.op, ast.Not):
            return nt(truth(self.dtruth(v, st)))
        if isinstance(node.op, ast.USub):
            return self.num1(tm.neg, v)
        if isinstance(node.op, ast.UAdd):
            return v
        if isinstance(node.op, ast.Invert):
            if tm.is_arr(v):
                k = var('k', 'int')
                n = length(v)
                tm.UPPER[k] = n
                return self.box(tab('A', n, k, nt(truth(idx(v, k)))), st)
            if tm.isbool(v):
                return nt(v)
            return app('invert', 'int', v)
        return unk('unary')

    def num1(self, f, v):
        if v.op == 'unk':
            return unk('op', v)
        return f(v)

    def e_IfExp(self, node, st):
        c = truth(self.dtruth(self.eval(node.test, st), st))
        if c is TRUE:
            return self.eval(node.body, st)
        if c is FALSE:
            return self.eval(node.orelse, st)
        a = self.guarded(node.body, c, st)
        b = self.guarded(node.orelse, nt(c), st)
        return ite(c, a, b)

    def e_BinOp(self, node, st):
        a = self.eval(node.left, st)
        b = self.eval(node.right, st)
        return self.rebox(self.binop(node.op, self.D(a, st), self.D(b, st), st, node), st)

    def binop(self, op, a, b, st, node=None):
        o = type(op).__name__
        if a.op == 'ite' or b.op == 'ite':
            # dispatch on the leaves
            r = lift(lambda x, y: self.binop(op, x, y, st, node), a, b)
            if r is not None:
                return r
        if a.op == 'range3':
            a = self.seq(a, st)
        if b.op == 'range3':
            b = self.seq(b, st)
        ka, kb = kind(a), kind(b)
        if any(x.op == 'ref' for x in (a, b)):
            a = self.freeze(a, st)
            b = self.freeze(b, st)
        # user-defined operators
        for x, y, nm in ((a, b, DUNDER.get(o)), (b, a, RDUNDER.get(o))):
            if x.op == 'ref' and nm and isinstance(st.heap.get(x.a[0], (0, 0))[1], Class):
                f = self.prog.method(st.heap[x.a[0]][1], nm)
                if f is not None:
                    return self.call_func(f, [x, y], {}, st, node, selfv=x)
        ta, tb = typ(a), typ(b)
        num_ = ('num', 'int', 'bool')
        if 'str' in (ta, tb) and (
                o == 'Add' and (ta in num_ or tb in num_) or
                o in ('Sub', 'Div', 'FloorDiv', 'Pow', 'MatMult') and
                (ta in num_ or ta == 'str') and (tb in num_ or tb == 'str')) or \
                o in ('Sub', 'Div') and ka == kb and ka in ('L', 'U'):
            if not any(x.op in ('unk', 'idx', 'var', 'B') for x in (a, b)):
                # the type of an element or of a bound variable is a guess when the
                # sequence is not homogeneous
                self.eff('type_error', (const(o), a, b), st, node)
        if o == 'Add':
            if ta == 'str' or tb == 'str':
                return tm.tstrcat(a, b)
            if ka in ('L', 'U') and kb in ('L', 'U') and ka == kb:
                return cat(ka, a, b)
            if ka == 'L' and b.op in ('idx', 'sym', 'var', 'app') and tb == 'any':
                return cat('L', a, b)
            if kb == 'L' and a.op in ('idx', 'sym', 'var', 'app') and ta == 'any':
                return cat('L', a, b)
            if ka == 'L' and kb == 'A' or ka == 'A' and kb == 'L':
                return add(askind('A', a), askind('A', b))
        if o == 'Mult':
            for x, y in ((a, b), (b, a)):
                if typ(x) == 'str':
                    if tm.isbool(y):
                        return ite(y, x, const(''))
                    if y.op == 'n':
                        return const(x.a[0] * int(y.a[0])) if x.op == 's' else \
                            mk('strmul', x, y)
                    return mk('strmul', x, y)
                if kind(x) in ('L', 'U') and kind(y) is None:
                    if x.op == 'lit' and len(x.a) == 2:
                        k = var('k', 'int')
                        return tab(kind(x), tm.asnum(y), k, x.a[1])
                    k = var('k', 'int')
                    return flat(kind(x), tm.asnum(y), k, x)
        if o == 'Mod' and ta == 'str':
            return self.lib.strpercent(a, b)
        if o in ('BitAnd', 'BitOr', 'BitXor'):
            if tm.isbool(a) and tm.isbool(b):
                return conj(a, b) if o == 'BitAnd' else disj(a, b) if o == 'BitOr' \
                    else ite(a, nt(b), b)
            if tm.is_arr(a) or tm.is_arr(b):
                x = a if tm.is_arr(a) else b
                n = length(x)
                k = var('k', 'int')
                tm.UPPER[k] = n
                p = truth(idx(a, k)) if tm.is_arr(a) else truth(a)
                q = truth(idx(b, k)) if tm.is_arr(b) else truth(b)
                return tab('A', n, k, conj(p, q) if o == 'BitAnd' else disj(p, q)
                           if o == 'BitOr' else ite(p, nt(q), q))
            if ka == 'S' or kb == 'S':
                return self.setop(o, a, b)
            return app(o.lower(), 'int', a, b)
        if o == 'RShift' and tm.isbool(a) and tm.isbool(b):
            return mk('ind', a, b)
        if o == 'Sub' and (ka == 'S' or kb == 'S'):
            return self.setop(o, a, b)
        for x in (a, b):
            if x.op == 'unk':
                return unk('arith', a, b)
        if a.op in ('none', 's') or b.op in ('none', 's'):
            return unk('type error', a, b)
        if o == 'MatMult':
            return self.lib.dot(self, a, b, st)
        f = {'Add': add, 'Sub': sub, 'Mult': mul, 'Div': div, 'FloorDiv': tm.fdiv,
             'Mod': tm.mod, 'Pow': tm.power}.get(o)
        if f is None:
            return app(o.lower(), 'num', a, b)
        if o in ('Mult', 'Sub') and tm.is_arr(a) is False and False:
            pass
        if ka == 'L' and kind(b) == 'A':
            a = askind('A', a)
        if kb == 'L' and kind(a) == 'A':
            b = askind('A', b)
        # elementwise boolean product used as conjunction
        if o == 'Mult' and elem_is_bool(a) and elem_is_bool(b):
            n = length(a)
            k = var('k', 'int')
            tm.UPPER[k] = n
            return tab('A', n, k, conj(idx(a, k), idx(b, k)))
        if o == 'Mult' and tm.isbool(a) and tm.isbool(b):
            return tm.asnum(conj(a, b))
        return f(a, b)

    def setop(self, o, a, b):
        k = var('k', 'int')
        n = length(a)
        tm.UPPER[k] = n
        a1, b1 = askind('S', a), askind('S', b)
        if o == 'Sub':
            return ftab('S', n, k, nt(mem(idx(a1, k), b1)), idx(a1, k))
        if o == 'BitAnd':
            return ftab('S', n, k, mem(idx(a1, k), b1), idx(a1, k))
        if o == 'BitOr':
            return cat('S', a1, b1)
        return unk('setop')

    def e_Compare(self, node, st):
        a = self.eval(node.left, st)
        r = None
        for op, rhs in zip(node.ops, node.comparators):
            b = self.eval(rhs, st)
            c = self.compare(op, a, b, st, node)
            r = c if r is None else conj(truth(r), truth(c))
            a = b
        return r

    def compare(self, op, a0, b0, st, node=None):
        o = type(op).__name__
        a, b = self.D(a0, st), self.D(b0, st)
        if o in ('Is', 'IsNot'):
            if a.op == 'none' or b.op == 'none' or tm.isconst(a) or tm.isconst(b):
                r = self.eqv(a, b, st)
            else:
                r = self.eqv(a0, b0, st) if 'ref' in (a0.op, b0.op) else self.eqv(a, b, st)
            return r if o == 'Is' else nt(r)
        if o in ('Eq', 'NotEq'):
            r = self.eqv(a, b, st)
            if o == 'NotEq':
                if tm.is_arr(r):
                    k = var('k', 'int')
                    n = length(r)
                    tm.UPPER[k] = n
                    return tab('A', n, k, nt(idx(r, k)))
                return nt(truth(r))
            return r
        if o in ('In', 'NotIn'):
            r = self.contains(a, b, st)
            return r if o == 'In' else nt(r)
        a, b = self.freeze(a, st), self.freeze(b, st)
        if a.op == 'unk' or b.op == 'unk':
            return unk('cmp', a, b)
        if typ(a) == 'str' or typ(b) == 'str' or kind(a) in ('L', 'U', 'S') and kind(b) != 'A':
            return mk('app', 'cmp' + o, 'bool', a, b)
        f = {'Lt': lambda: lt(a, b), 'LtE': lambda: le(a, b),
             'Gt': lambda: lt(b, a), 'GtE': lambda: le(b, a)}[o]
        r = f()
        if tm.is_arr(r):
            return r
        return r

    def eqv(self, a, b, st):
        if a.op == 'ite' or b.op == 'ite':
            r = lift(lambda x, y: self.eqv(x, y, st), a, b)
            if r is not None:
                return r
        if a is b and a.op != 'unk':
            return TRUE if a.op != 'nan' else FALSE
        idn = ('fnv', 'clsv', 'ext', 'modv')
        if a.op in idn or b.op in idn:
            if a.op in idn and b.op in idn:
                return FALSE
            return FALSE if a.op in ('none', 'n', 's', 'b') or b.op in ('none', 'n', 's', 'b') \
                else mk('eq', *sorted((a, b)))
        if a.op == 'ref' or b.op == 'ref':
            x, y = (a, b) if a.op == 'ref' else (b, a)
            if y.op == 'none':
                return FALSE
            if y.op == 'ref':
                return FALSE
        a, b = self.freeze(a, st), self.freeze(b, st)
        if a.op == 'unk' or b.op == 'unk':
            return unk('eq', a, b)
        return eq(a, b)

    def contains(self, x, s, st):
        s = drop_none(s)
        x = self.freeze(x, st)
        if s.op == 'ite':
            return ite(s.a[0], self.contains(x, s.a[1], st), self.contains(x, s.a[2], st))
        if s.op in ('range3', 'enum', 'zip', 'values', 'items'):
            s = self.seq(s, st)
        s = self.freeze(s, st)
        if s.op == 'unk' or x.op == 'unk':
            return unk('in', x, s)
        if typ(s) == 'str':
            if s.op == 's' and x.op == 's':
                return TRUE if x.a[0] in s.a[0] else FALSE
            return app('substr', 'bool', x, s)
        return mem(x, s)

    def index(self, sl, st):
        if isinstance(sl, ast.Slice):
            return mk('slice3', *[self.D(self.eval(x, st), st) if x is not None else NONE
                                  for x in (sl.lower, sl.upper, sl.step)])
        if isinstance(sl, ast.Tuple):
            return mk('lit', 'U', *[self.index(x, st) for x in sl.elts])
        return self.freeze(self.D(self.eval(sl, st), st), st)

    def e_Subscript(self, node, st):
        b = self.eval(node.value, st)
        i = self.index(node.slice, st)
        if b.op == 'ite':
            b = drop_undef(b)
        c = self.D(b, st)
        if callable(self.trace_reads):
            self.trace_reads(b, i, st, node)
        elif self.trace_reads:
            self.eff('load', (c, i), st, node)
        if self.index_errors and st.g is TRUE and i.op == 'n' and c.op == 'lit' and \
                c.a[0] in ('L', 'U') and not 1 - len(c.a) <= i.a[0] < len(c.a) - 1:
            self.eff('key_error', (i, c), st, node)
        return self.subscript(c, i, st, node)

    def subscript(self, c, i, st, node=None):
        c = drop_none(c)
        if c.op == 'ite':
            r = lift(lambda x: self.subscript(x, i, st, node), c)
            if r is not None:
                return r
        if c.op in ('range3', 'enum', 'zip'):
            c = self.seq(c, st)
        if c.op == 'ref' or (isinstance(typ(c), tuple) and typ(c)[0] == 'obj'):
            r = self.call_method(c, '__getitem__', [i], {}, st, node)
            return r
        if c.op == 'unk' or i.op == 'unk':
            return unk('index', c, i)
        if c.op in ('ext', 'clsv'):
            return c          # generic alias such as list[int]
        if typ(c) == 'str':
            if c.op == 's' and i.op == 'slice3' and all(b.op in ('n', 'none') for b in i.a):
                return seqslice(c, *i.a)
            if c.op == 's' and i.op == 'n':
                return const(c.a[0][int(i.a[0])])
            return app('strindex', 'str', c, i)
        if kind(c) == 'D':
            r = self.getidx(c, i, st)
            if any(x.op == 'missing' for x in [r] + ([y for _, y in tm.leafs(r, TRUE)]
                                                      if r.op == 'ite' else [])):
                bad = FALSE
                for g, x in tm.leafs(r, TRUE):
                    if x.op == 'missing':
                        bad = disj(bad, g)
                self.eff('missing_key', (c, i), st, node, g=conj(st.g, bad))
                keep = [(g, x) for g, x in tm.leafs(r, TRUE) if x.op != 'missing']
                if not keep:
                    raise Dead()
                r = keep[-1][1]
                for g, x in reversed(keep[:-1]):
                    r = ite(g, x, r)
            return r
        r = self.getmulti(c, self.ilist(i, c), st)
        if r.op == 'missing':
            self.eff('bad_index', (c, i), st, node)
            return unk('index out of range')
        if r.op != 'ref' and (i.op == 'slice3' or i.op == 'lit' or kind(i) in ('L', 'A')):
            return self.rebox(r, st)
        return r

    def getidx(self, c, i, st):
        c = self.D(c, st)
        if c.op == 'ite':
            r = lift(lambda x: self.getidx(x, i, st), c)
            if r is not None:
                return r
        if c.op == 'ref':
            return self.subscript(c, i, st)
        if c.op == 'unk':
            return unk('index', c, i)
        if c.op in ('range3', 'enum', 'zip', 'items', 'values'):
            c = self.seq(c, st)
        return idx(c, i)

    def getmulti(self, c, ix, st):
        c = self.D(c, st)
        if not ix:
            return c
        if c.op == 'ite':
            r = lift(lambda x: self.getmulti(x, ix, st), c)
            if r is not None:
                return r
        i, rest = ix[0], ix[1:]
        if i.op == 'slice3':
            s = seqslice(c, *i.a)
            if not rest:
                return s
            k = var('k', 'int')
            n = length(s)
            tm.UPPER[k] = n
            return tab(kind(s) or 'A', n, k, self.getmulti(idx(s, k), rest, st))
        if i.op == 'none':
            return lit(kind(c) or 'A', self.getmulti(c, rest, st))
        if kind(i) in ('L', 'A', 'U') or i.op == 'range3':
            i = self.seq(i, st)
            k = var('k', 'int')
            if elem_is_bool(i):
                n = length(c)
                tm.UPPER[k] = n
                return ftab(kind(c) or 'A', n, k, idx(i, k),
                            self.getmulti(idx(c, k), rest, st))
            n = length(i)
            tm.UPPER[k] = n
            return tab(kind(c) or 'A', n, k, self.getmulti(idx(c, idx(i, k)), rest, st))
        if tm.isbool(i) and i.op != 'b' and False:
            pass
        return self.getmulti(idx(c, tm.asnum(i) if kind(c) != 'D' else i), rest, st) \
            if rest else idx(c, tm.asnum(i) if kind(c) != 'D' else i)

    def e_Lambda(self, node, st):
        f = Func('<lambda>', node, st.fr.mod, None, closure=(st.fr, st.env))
        f.outer = st.fr
        return mk('fnv', f)

    # comprehensions are desugared into loops
    def _comp(self, node, st, kind_):
        nm = '$c%d' % self.counter('comp')
        if kind_ == 'D':
            r = self.box(mk('dict0'), st)
        else:
            r = self.box(lit('L' if kind_ != 'S' else 'S'), st)
        names = set()
        for g in node.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        saved = {n: st.env.get(n) for n in names}
        savedo = {n: st.org.get(n) for n in names}
        st.env[nm] = r

        def level(i, s):
            if i == len(node.generators):
                if kind_ == 'D':
                    kv = self.freeze(self.D(self.eval(node.key, s), s), s)
                    v = self.eval(node.value, s)
                    c = self.D(r, s)
                    s.heap[r.a[0]] = ('box', store(c, kv, v))
                else:
                    v = self.eval(node.elt, s)
                    c = self.D(r, s)
                    s.heap[r.a[0]] = ('box', cat(c.a[0] if c.op == 'lit' else 'L', c,
                                                 lit('L', v)))
                return Outs(s)
            g = node.generators[i]
            itv = self.eval(g.iter, s)

            def body(s2):
                cond = TRUE
                for c in g.ifs:
                    x = truth(self.dtruth(self.eval(c, s2), s2))
                    cond = conj(cond, x)
                if cond is FALSE:
                    return Outs(s2)
                if cond is TRUE:
                    return level(i + 1, s2)
                s3, s4 = s2.clone(), s2.clone()
                s3.g, s4.g = conj(s2.g, cond), conj(s2.g, nt(cond))
                o = level(i + 1, s3)
                g0 = s2.g
                o.next = self.join(o.next, s4)
                o.next.g = g0
                return o
            o = self.iterate(itv, g.target, s, body, CompNode(node, g, i))
            if o.next is None:
                raise Dead()
            return o
        o = level(0, st)
        s = o.next
        st.env, st.heap, st.org = s.env, s.heap, s.org
        res = self.D(r, st)
        res = self.freeze(res, st) if False else res
        st.env.pop(nm, None)
        for n, v in saved.items():
            if v is None:
                st.env.pop(n, None)
            else:
                st.env[n] = v
            if savedo[n] is not None:
                st.org[n] = savedo[n]
            else:
                st.org.pop(n, None)
        return r

    def e_ListComp(self, node, st):
        return self._comp(node, st, 'L')

    def e_GeneratorExp(self, node, st):
        return self._comp(node, st, 'L')

    def e_SetComp(self, node, st):
        r = self._comp(node, st, 'L')
        return self.box(askind('S', self.D(r, st)), st)

    def e_DictComp(self, node, st):
        return self._comp(node, st, 'D')

    # ------------------------------------------------------------ attributes
    def getattr_(self, v, name, st, node=None):
        if v.op == 'ite':
            v2 = drop_none(drop_undef(v))
            if v2.op != 'ite':
                return self.getattr_(v2, name, st, node)
            d = self.D(v2, st)
            if not any(l.op == 'ref' for _, l in tm.leafs(d, TRUE)) and kind(d):
                r = self.lib.seqattr(self, d, name, st)
                return r if r is not None else mk('meth', v2, name)
            return self.onleaves(v2, st, lambda x, s: self.getattr_(x, name, s, node))
        if v.op == 'ref':
            h = st.heap.get(v.a[0])
            if h is not None and h[0] == 'obj':
                return self.objattr(v, h, name, st, node)
            v0 = v
            v = self.D(v, st)
            r = self.lib.seqattr(self, v, name, st)
            if r is not None:
                return r
            return mk('meth', v0, name)
        if v.op == 'clsv':
            return self.clsattr(v, name, st, node)
        if v.op == 'modv':
            r = self.prog.resolve(v.a[0], name)
            if r is None:
                self.eff('attr_undef', (v, const(name)), st, node)
                return unk('module attr ' + name)
            return self.wrap(r, st)
        if v.op == 'pkgv':
            nm = v.a[0] + '.' + name
            if nm in self.prog.modules:
                return mk('modv', self.prog.modules[nm])
            return mk('pkgv', nm)
        if v.op == 'ext':
            return self.extval(v.a[0] + '.' + name)
        if v.op == 'superv':
            cls, selfv = v.a
            h = st.heap.get(selfv.a[0]) if selfv.op == 'ref' else None
            dyn = h[1] if h else (selfv.a[0] if selfv.op == 'clsv' else cls)
            f = None
            if isinstance(dyn, Class):
                mro = self.prog.mro(dyn)
                after = False
                for c in mro:
                    if after and name in c.methods:
                        f = c.methods[name]
                        break
                    if c is cls:
                        after = True
            if f is None:
                if name == '__init__':
                    return mk('ext', 'builtins.object.__init__')
                self.eff('attr_undef', (const('super'), const(name)), st, node)
                return unk('super attr ' + name)
            return self.bind(f, selfv, dyn)
        if v.op == 'unk':
            return unk('attr', v, name)
        if v.op == 'none':
            self.eff('none_attr', (const(name),), st, node)
            return unk('None.' + name)
        ty = typ(v)
        if isinstance(ty, tuple) and ty[0] == 'obj':
            return self.lib.symattr(self, v, ty[1], name, st, node)
        r = self.lib.seqattr(self, v, name, st)
        if r is not None:
            return r
        return mk('meth', v, name)

    def bind(self, f, selfv, cls):
        if f.kind == 'staticmethod':
            return mk('fnv', f)
        if f.kind == 'classmethod':
            return mk('bound', f, mk('clsv', cls))
        return mk('bound', f, selfv)

    def objattr(self, v, h, name, st, node):
        cls, fl = h[1], h[2]
        if name in fl:
            x = fl[name]
            if x.op == 'ite':
                x2 = drop_undef(x)
                if x2 is not x:
                    self.eff('maybe_attr_undef', (const(self.clsname(cls)), const(name)), st,
                             node, g=conj(st.g, undef_cond(x)))
                    x = x2
            if x is not UNDEF:
                return x
        if isinstance(cls, str):
            r = self.lib.extattr(self, v, cls, fl, name, st, node)
            if r is not None:
                return r
            return mk('meth', v, name)
        if name == '__dict__':
            return mk('dictof', v)
        if name == '__class__':
            return mk('clsv', cls)
        f = self.prog.method(cls, name)
        if f is not None:
            if f.kind == 'property':
                return self.call_func(f, [v], {}, st, node, selfv=v)
            return self.bind(f, v, cls)
        ca = self.prog.classattr(cls, name)
        if ca is not None:
            return self.clsattr(mk('clsv', ca[0]), name, st, node)
        self.eff('attr_undef', (const(cls.name), const(name)), st, node)
        return unk('attribute %s.%s' % (cls.name, name))

    def clsname(self, c):
        return c if isinstance(c, str) else c.name

    def clsattr(self, v, name, st, node):
        cls = v.a[0]
        for c in self.prog.mro(cls):
            h = st.heap.get(('cls', c.name))
            if h is not None and name in h[2] and h[2][name] is not UNDEF:
                return drop_undef(h[2][name])
            if name in c.methods:
                return self.bind(c.methods[name], v, cls) \
                    if c.methods[name].kind == 'classmethod' else mk('fnv', c.methods[name])
            if name in c.attrs:
                s = State({}, st.heap, TRUE, {}, Frame(None, c.mod, c))
                val = self.eval(c.attrs[name], s)
                key = ('cls', c.name)
                h = st.heap.get(key, ('obj', 'class', {}))
                fl = dict(h[2])
                fl[name] = val
                st.heap[key] = ('obj', 'class', fl)
                return val
        if name == '__name__':
            return const(cls.name)
        self.eff('attr_undef', (const(cls.name), const(name)), st, node)
        return unk('class attribute ' + name)

    def setattr_(self, o, name, v, st, node=None):
        if o.op == 'ite':
            for g, l in tm.leafs(drop_undef(o), TRUE):
                if l.op == 'ref':
                    h = st.heap.get(l.a[0])
                    if h and h[0] == 'obj':
                        fl = dict(h[2])
                        if name in self.watch:
                            self.watched(l, name, v, fl.get(name), st, node, conj(st.g, g))
                        fl[name] = ite(g, v, fl.get(name, UNDEF))
                        st.heap[l.a[0]] = ('obj', h[1], fl)
                else:
                    self.eff('setattr', (l, const(name), self.freeze(v, st)), st, node,
                             g=conj(st.g, g))
            return
        if o.op == 'ref':
            h = st.heap.get(o.a[0])
            if h is not None and h[0] == 'obj':
                if isinstance(h[1], str) and self.lib.extset(self, o, h[1], h[2], name, v, st,
                                                             node):
                    return
                fl = dict(h[2])
                if name in self.watch:
                    self.watched(o, name, v, fl.get(name), st, node, st.g)
                fl[name] = v
                st.heap[o.a[0]] = ('obj', h[1], fl)
                return
        if o.op == 'clsv':
            key = ('cls', o.a[0].name)
            h = st.heap.get(key, ('obj', 'class', {}))
            fl = dict(h[2])
            fl[name] = v
            st.heap[key] = ('obj', 'class', fl)
            return
        self.eff('setattr', (self.freeze(o, st), const(name), self.freeze(v, st)), st, node)

    def watched(self, o, name, v, old, st, node, g):
        self.eff('fieldwrite', (o, const(name), self.freeze(v, st),
                                NONE if old is None else self.freeze(old, st)), st, node, g=g)

    def onleaves(self, v, st, fn):
        """apply fn(leaf, state) for each guarded leaf, merging states."""
        res = []
        for g, l in tm.leafs(v, TRUE):
            if l is UNDEF:
                continue
            s = st.clone()
            s.g = conj(st.g, g)
            if s.g is FALSE:
                continue
            try:
                r = fn(l, s)
            except Dead:
                continue
            s.env['$leaf'] = r
            s.g = g
            res.append(s)
        if not res:
            raise Dead()
        g0 = st.g
        j = self.joinall(res)
        r = j.env.pop('$leaf')
        st.env, st.heap, st.org = j.env, j.heap, j.org
        st.env.pop('$leaf', None)
        st.g = g0
        return r

    # ------------------------------------------------------------ calls
    def e_Call(self, node, st):
        # super()
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and \
                'super' not in st.env:
            cls, selfv = st.fr.cls, st.fr.selfv
            if len(node.args) == 2:
                c = self.eval(node.args[0], st)
                cls = c.a[0] if c.op == 'clsv' else cls
                selfv = self.eval(node.args[1], st)
            if cls is None or selfv is None:
                return unk('super')
            return mk('superv', cls, selfv)
        f = self.eval(node.func, st)
        args, orgs = [], []
        for a in node.args:
            if isinstance(a, ast.Starred):
                s = self.seq(self.eval(a.value, st), st)
                if s.op == 'lit':
                    args += list(s.a[1:])
                    orgs += [None] * (len(s.a) - 1)
                else:
                    self.notes.append(('star call', '', self.where(node, st)))
                    args.append(mk('starv', s))
                    orgs.append(None)
            else:
                v = self.eval(a, st)
                args.append(v)
                o = None
                if v.op != 'ref' and kind(v) in ('L', 'A', 'D'):
                    o = self.origin_of(a, st) if isinstance(a, ast.Subscript) else (
                        st.org.get(a.id) if isinstance(a, ast.Name) else None)
                orgs.append(o)
        kw = {}
        for k in node.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                d = self.D(v, st)
                ks = self.dictkeys(d, st)
                if ks is not None and ks[0] == 'lit' and all(x.op == 's' for x in ks[1]):
                    for x in ks[1]:
                        kw[x.a[0]] = idx(d, x)
                else:
                    return unk('kwargs')
            else:
                kw[k.arg] = v
        # method mutation on interior containers needs the receiver expression
        self._recv = node.func.value if isinstance(node.func, ast.Attribute) else None
        return self.call(f, args, kw, st, node, orgs)

    def call(self, f, args, kw, st, node=None, orgs=None):
        if f.op == 'ite':
            return self.onleaves(f, st, lambda x, s: self.call(x, args, kw, s, node, orgs))
        if f.op == 'fnv':
            return self.call_func(f.a[0], args, kw, st, node, orgs=orgs)
        if f.op == 'bound':
            fn, selfv = f.a
            return self.call_func(fn, [selfv] + list(args), kw, st, node, selfv=selfv,
                                  orgs=[None] + list(orgs or []))
        if f.op == 'clsv':
            return self.instantiate(f.a[0], args, kw, st, node)
        if f.op == 'ext':
            return self.lib.call_ext(self, f.a[0], args, kw, st, node)
        if f.op == 'meth':
            return self.lib.call_meth(self, f.a[0], f.a[1], args, kw, st, node,
                                      getattr(self, '_recv', None))
        if f.op == 'symmeth':
            return self.lib.call_symmeth(self, f.a[0], f.a[1], f.a[2], args, kw, st, node)
        if f.op == 'partialv':
            fn, pa, pk = f.a
            k2 = dict(pk)
            k2.update(kw)
            return self.call(fn, list(pa) + list(args), k2, st, node)
        if f.op == 'ref':
            h = st.heap.get(f.a[0])
            if h and h[0] == 'obj' and isinstance(h[1], Class):
                return self.call_method(f, '__call__', args, kw, st, node)
        if f.op == 'none':
            self.eff('call_none', (), st, node)
            return unk('call None')
        self.notes.append(('unknown call', str(f)[:60], self.where(node, st)))
        for a in args:
            if a.op == 'ref':
                h = st.heap.get(a.a[0])
                if h and h[0] == 'box':
                    st.heap[a.a[0]] = ('box', unk('escaped'))
        return unk('call', f)

    def call_method(self, obj, name, args, kw, st, node):
        f = self.getattr_(obj, name, st, node)
        return self.call(f, args, kw, st, node)

    def instantiate(self, cls, args, kw, st, node):
        for c in self.prog.mro(cls):
            h = self.stubs.get(c.name)
            if h is not None:
                return h(self, cls, args, kw, st, node)
        if any(isinstance(b, (ast.Name, ast.Attribute)) and
               ast.unparse(b).split('.')[-1] in ('Exception', 'ValueError', 'RuntimeError')
               for b in cls.node.bases):
            return unk('exception object')
        # dataclass / namedtuple are not modelled
        if cls.node.decorator_list:
            return self.dataclass(cls, args, kw, st, node)
        o = self.newobj(cls, st)
        f = self.prog.method(cls, '__init__')
        if f is not None:
            self.call_func(f, [o] + list(args), kw, st, node, selfv=o)
        elif args or kw:
            self.eff('sig_error', (const(cls.name),), st, node)
        return o

    def dataclass(self, cls, args, kw, st, node):
        fields = []
        for s in cls.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                fields.append((s.target.id, s.value))
        fl = {}
        for (nm, d), v in zip(fields, args):
            fl[nm] = v
        for nm, d in fields[len(args):]:
            if nm in kw:
                fl[nm] = kw[nm]
            elif d is not None:
                fl[nm] = self.eval(d, State({}, st.heap, TRUE, {}, Frame(None, cls.mod, cls)))
        return self.newobj(cls, st, fl)

    def bindargs(self, f, args, kw, st, node, orgs=None):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env, org = {}, {}
        bad = None
        if len(args) > len(pos) and a.vararg is None:
            bad = 'too many arguments'
        for i, (p, v) in enumerate(zip(pos, args)):
            env[p] = v
            if orgs and i < len(orgs) and orgs[i] is not None:
                org[p] = orgs[i]
        if a.vararg is not None:
            env[a.vararg.arg] = lit('U', *args[len(pos):])
        kws = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in env and k in pos:
                bad = 'multiple values for ' + k
            if k in pos or k in kws:
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                bad = 'unexpected keyword ' + k
        if a.kwarg is not None:
            d = mk('dict0')
            for k, v in extra.items():
                d = store(d, const(k), v)
            env[a.kwarg.arg] = self.box(d, st)
        dst = State({}, st.heap, TRUE, {}, Frame(None, f.mod, f.cls))
        nd = len(a.defaults)
        for i, d in enumerate(a.defaults):
            p = pos[len(pos) - nd + i]
            if p not in env:
                env[p] = self.eval(d, dst)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env and d is not None:
                env[p.arg] = self.eval(d, dst)
        for p in pos + kws:
            if p not in env:
                bad = 'missing argument ' + p
                env[p] = unk('missing arg')
        if bad:
            self.eff('sig_error', (const(f.qual), const(bad)), st, node)
        return env, org

    def call_func(self, f, args, kw, st, node=None, selfv=None, orgs=None):
        self.sitecalls += 1
        # stubs by qualified or bare name
        for key in self.stubkeys(f, selfv, st):
            h = self.stubs.get(key)
            if h is not None:
                env, _ = self.bindargs(f, args, kw, st, node)
                return h(self, f, env, st, node)
        if f.kind == 'decorated':
            self.notes.append(('decorator', f.qual, self.where(node, st)))
            return unk('decorated ' + f.qual)
        if self.depth > self.maxdepth or sum(1 for x in self.callstack if x[2] is f) >= 3:
            self.notes.append(('recursion', f.qual, self.where(node, st)))
            return unk('recursion ' + f.qual)
        env, org = self.bindargs(f, args, kw, st, node, orgs)
        cls = f.cls
        fr = Frame(f, f.mod, cls, selfv if selfv is not None else
                   (args[0] if args and f.cls and f.kind == 'func' else None))
        s = State(env, st.heap, TRUE, org, fr)
        s.heap = dict(st.heap)
        self.visited.add(f.qual)
        mark = len(self.trace)
        lmark = len(self.loops)
        oldsite = self.site
        self.callstack.append((st.fr, st, f))
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                o = Outs(None)
                o.ret.append((self.eval(f.node.body, s), s))
            else:
                isgen = _is_gen(f.node)
                if isgen:
                    s.env['$yield'] = self.box(lit('L'), s)
                o = self.exec_block(f.node.body, s)
                if isgen:
                    if o.next is not None:
                        o.ret.append((o.next.env['$yield'], o.next))
                        o.next = None
                    o.ret = [(x.env['$yield'], x) for _, x in o.ret]
        finally:
            self.depth -= 1
            self.callstack.pop()
        self.site = oldsite
        outs = []
        if o.next is not None:
            o.next.env = {'$ret': NONE}
            outs.append(o.next)
        for v, s2 in o.ret:
            s3 = s2.clone()
            s3.env = {'$ret': v}
            outs.append(s3)
        if st.g is not TRUE:
            for e in self.trace[mark:]:
                e.g = conj(st.g, e.g)
        if not outs:
            raise Dead()
        j = self.joinall(outs)
        st.heap = j.heap
        # write back interior containers passed by origin
        return j.env['$ret']

    def stubkeys(self, f, selfv, st):
        keys = [f.qual]
        if selfv is not None and selfv.op == 'ref':
            h = st.heap.get(selfv.a[0])
            if h and h[0] == 'obj' and isinstance(h[1], Class):
                keys = ['%s.%s' % (c.name, f.name) for c in self.prog.mro(h[1])] + keys
        return keys

    # ------------------------------------------------------------ entry points
    def run(self, f, args, kw=None, st=None, selfv=None):
        """Analyse function f; returns (value, state)."""
        st = st or self.fresh_state(f.mod)
        v = self.call_func(f, args, kw or {}, st, None, selfv=selfv)
        return v, st


class CompNode:
    """Pseudo loop node for a comprehension level."""

    def __init__(self, node, gen, level):
        self.lineno = getattr(node, 'lineno', None)
        self.col_offset = getattr(node, 'col_offset', 0)
        self.comp = node
        self.gen = gen
        self.level = level
        self.body = []


DUNDER = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__'}
RDUNDER = {'Add': '__radd__', 'Sub': '__rsub__', 'Mult': '__rmul__'}


def _size(t):
    return sum(1 for _ in tm.walk(t))


def _is_gen(node):
    st = list(node.body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(x))
    return False


def elem_is_bool(t):
    ty = typ(t)
    return isinstance(ty, tuple) and ty[0] in 'LA' and ty[1] == 'bool'


def drop_undef(v):
    if v.op != 'ite':
        return v
    if not any(l is UNDEF for _, l in tm.leafs(v, TRUE)):
        return v
    a, b = drop_undef(v.a[1]), drop_undef(v.a[2])
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    return ite(v.a[0], a, b)


def drop_none(v):
    """uses that fail on None never see it."""
    if v.op != 'ite':
        return v
    if not any(l is NONE for _, l in tm.leafs(v, TRUE)):
        return v
    a, b = drop_none(v.a[1]), drop_none(v.a[2])
    if a is NONE:
        return b
    if b is NONE:
        return a
    return ite(v.a[0], a, b)


def undef_cond(v):
    c = FALSE
    for g, l in tm.leafs(v, TRUE):
        if l is UNDEF:
            c = disj(c, g)
    return c


def range_len(lo, hi, step):
    if step is ONE:
        return sub(hi, lo)
    if step.op == 'n' and step.a[0] < 0:
        return tm.cdiv(sub(lo, hi), neg(step))
    return tm.cdiv(sub(hi, lo), step)


def canon_ty(ty):
    return ty


def _names_read(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name)
            and isinstance(x.ctx, ast.Load)}


def _rbw(body, name):
    """True if name may be read before a definite write in this statement list."""
    for s in body:
        r = _rbw_stmt(s, name)
        if r == 'read':
            return True
        if r == 'write':
            return False
    return False


def _rbw_stmt(s, name):
    if isinstance(s, (ast.Assign, ast.AnnAssign)):
        if s.value is not None and name in _names_read(s.value):
            return 'read'
        tg = s.targets if isinstance(s, ast.Assign) else [s.target]
        for t in tg:
            if name in _names_read(t):
                return 'read'
        for t in tg:
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store):
                    return 'write'
        return None
    if isinstance(s, ast.AugAssign):
        if isinstance(s.target, ast.Name) and s.target.id == name:
            return 'read'
        return 'read' if name in _names_read(s) else None
    if isinstance(s, ast.If):
        if name in _names_read(s.test):
            return 'read'
        r1 = _rbw_list(s.body, name)
        r2 = _rbw_list(s.orelse, name)
        if 'read' in (r1, r2):
            return 'read'
        if r1 in ('write', 'exit') and r2 in ('write', 'exit'):
            return 'write'
        return None
    if isinstance(s, (ast.For,)):
        if name in _names_read(s.iter):
            return 'read'
        for x in ast.walk(s.target):
            if isinstance(x, ast.Name) and x.id == name:
                return None if _rbw_list(s.orelse, name) != 'read' else 'read'
        r = _rbw_list(s.body, name)
        return 'read' if r == 'read' or _rbw_list(s.orelse, name) == 'read' else None
    if isinstance(s, ast.While):
        if name in _names_read(s.test):
            return 'read'
        return 'read' if _rbw_list(s.body, name) == 'read' else None
    if isinstance(s, (ast.Try, ast.With)):
        bs = [s.body] + [h.body for h in getattr(s, 'handlers', [])] + \
            [getattr(s, 'orelse', [])] + [getattr(s, 'finalbody', [])]
        for it in getattr(s, 'items', []):
            if name in _names_read(it):
                return 'read'
        rs = [_rbw_list(b, name) for b in bs]
        if 'read' in rs:
            return 'read'
        if isinstance(s, ast.With) and rs[0] == 'write':
            return 'write'
        return None
    if isinstance(s, (ast.Break, ast.Continue, ast.Return, ast.Raise)):
        if name in _names_read(s):
            return 'read'
        return 'exit'
    return 'read' if name in _names_read(s) else None


def _rbw_list(body, name):
    for s in body:
        r = _rbw_stmt(s, name)
        if r is not None:
            return r
    return None


# ---------------------------------------------------------------- recurrences
def solve1(f, phi, k, init):
    """closed form at iteration k of v' = f(v, k), v0 = init (or None)."""
    j = var('k', 'int')
    tm.UPPER[j] = k

    def at(t):
        return subst(t, {k: j})
    if f is phi:
        return init
    if phi not in f.fv:
        # last value
        prev = subst(f, {k: sub(k, ONE)})
        if k not in f.fv and prev is init:
            return init
        if init is UNDEF:
            return prev
        return ite(eq(k, ZERO), init, prev)
    # boolean any / all
    if typ(f) == 'bool' and typ(phi) == 'bool':
        f1, f0 = tm.cofd(f, phi, True), tm.cofd(f, phi, False)
        f1 = subst(f, {phi: TRUE})
        f0 = subst(f, {phi: FALSE})
        if f1 is TRUE and phi not in f0.fv:
            return disj(truth(init), tany(k, j, at(f0)))
        if f0 is FALSE and phi not in f1.fv:
            return conj(truth(init), tall(k, j, at(f1)))
    lv = [x for _, x in tm.leafs(f, TRUE)]
    condfree = all(phi not in c.fv for c in _conds(f))
    kd = kind(phi)
    # sequences
    if condfree and kd in ('L', 'A', 'S') or (condfree and kd is None and any(
            x.op == 'cat' for x in lv)):
        ok = True
        for x in lv:
            if x is phi:
                continue
            if x.op == 'cat' and (x.a[1] is phi) and all(phi not in y.fv for y in x.a[2:]):
                continue
            ok = False
        if ok:
            kd2 = kd or 'L'

            def rest(x):
                if x is phi:
                    return lit(kd2)
                return cat(kd2, *x.a[2:])
            r = lift(rest, f)
            if r is not None:
                return cat(kd2, init, flat(kd2, k, j, at(r)))
    # element stores
    r = _solve_store(f, phi, k, init, j, lv, condfree)
    if r is not None:
        return r
    if f.op == 'tab' and kd in ('A', 'L'):
        r = _solve_pointwise(f, phi, k, init)
        if r is not None:
            return r
    # additive
    if kd is None or kd == 'A':
        if tm.isnumt(phi) or typ(phi) in ('num', 'int', 'any') or kd == 'A':
            r = _solve_num(f, phi, k, init, j)
            if r is not None:
                return r
        # max / min
        if condfree:
            r = _solve_mm(f, phi, k, init, j, lv)
            if r is not None:
                return r
    # string concatenation
    if condfree and typ(phi) == 'str' and all(
            x is phi or (x.op == 'strcat' and x.a[0] is phi) for x in lv):
        return None
    return None


def _solve_pointwise(f, phi, k, init):
    """f = [g(phi[s], s) | s<n]: every element has its own recurrence."""
    kd, n = f.a[1], f.a[2]
    if kind(phi) != kd or n.fv & {phi, k} or init is UNDEF or length(init) is not n:
        return None
    s, _, body = tm.opn(f, fresh=True)
    cur = idx(phi, s)
    dm = tm.dims(phi)
    el = var('phi', typ(cur), dm[1:] if dm and len(dm) > 1 else None)
    b2 = subst(body, {cur: el})
    if phi in b2.fv:
        return None
    r = solve1(b2, el, k, idx(init, s))
    if r is None:
        return None
    return tab(kd, n, s, r)


def _conds(f):
    out = []
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        if x.op == 'ite' and x not in seen:
            seen.add(x)
            out.append(x.a[0])
            st += [x.a[1], x.a[2]]
    return out


def _solve_num(f, phi, k, init, j):
    def at(t):
        return subst(t, {k: j})
    if f.op == 'unk':
        return None
    try:
        if kind(phi) == 'A':
            if length(f) is not length(phi):
                return None
        d = sub(f, phi)
    except Exception:
        return None
    if kind(phi) == 'A':
        # elementwise: d is tab over elements
        if phi in d.fv:
            return None
        if d.op != 'tab' and d.op != 'lit':
            return None
        return add(init, tsum(k, j, at(d)))
    if phi not in d.fv:
        if init is UNDEF:
            return None
        return add(init, tsum(k, j, at(d)))
    return None


def _solve_mm(f, phi, k, init, j, lv):
    def at(t):
        return subst(t, {k: j})
    for op, of, em, ff in (('max', 'maxof', NINF, tm.tmax), ('min', 'minof', INF, tm.tmin)):
        ok = True
        found = False
        for x in lv:
            if x is phi:
                continue
            if x.op == op and phi in x.a and all(phi not in y.fv for y in x.a if y is not phi):
                found = True
                continue
            ok = False
        if ok and found:
            def g(x):
                if x is phi:
                    return em
                xs = [y for y in x.a if y is not phi]
                return ff(*xs)
            r = lift(g, f)
            if r is not None:
                return ff(init, mmof(of, k, j, at(r)))
    # accumulated maximum with folded base: max(phi, a) where init dominates
    return None


def _solve_store(f, phi, k, init, j, lv, condfree):
    if not condfree:
        # conditions may read the stored element only:  handled below via leaves
        pass
    stores = [x for x in lv if x is not phi]
    if not stores or not all(x.op == 'store' and x.a[0] is phi for x in stores):
        return _solve_multistore(f, phi, k, init, j, lv)
    key = stores[0].a[1]
    if any(x.a[1] is not key for x in stores) or phi in key.fv:
        return None
    # element function: e(k, old element)
    el = var('phi', typ(stores[0].a[2]) if typ(idx(phi, key)) == 'any' else typ(idx(phi, key)),
             None)
    cur = idx(phi, key)

    def g(x):
        if x is phi:
            return cur
        return x.a[2]
    e = lift(g, f)
    if e is None:
        return None
    if key.fv and k in key.fv:
        # distinct key per iteration (assumed injective): element update once
        iel = idx(init, key) if init is not UNDEF else UNDEF
        e2 = subst(e, {cur: el})
        if phi in e2.fv:
            return None
        # condition under which a store happens
        c = FALSE
        for gd, x in tm.leafs(f, TRUE):
            if x is not phi:
                c = disj(c, gd)
        c = subst(c, {cur: el})
        if phi in c.fv:
            return None
        if (el in e2.fv or el in c.fv) and any(
                x.op in ('mod', 'fdiv', 'min', 'max', 'ite') and k in x.fv
                for x in tm.walk(key)):
            return None             # an element may be visited more than once
        c = subst(c, {el: iel})
        val = subst(e2, {el: iel})
        val = restrict(val, c)
        return scat(init, k, j, subst(key, {k: j}), subst(val, {k: j}), subst(c, {k: j}))
    # same element in every iteration: solve the element recurrence
    d = None
    dm = tm.dims(phi)
    el = var('phi', typ(cur) if typ(cur) != 'any' else typ(stores[0].a[2]),
             dm[1:] if dm and len(dm) > 1 else None)
    e2 = subst(e, {cur: el})
    if phi in e2.fv:
        return None
    iel = idx(init, key)
    r = solve1(e2, el, k, iel)
    if r is None:
        return None
    if r is iel:
        return init
    return ite(eq(k, ZERO), init, store(init, key, r)) if False else store(init, key, r)


def _solve_multistore(f, phi, k, init, j, lv):
    """store(store(phi,k1,v1),k2,v2) with iteration-dependent distinct keys."""
    return None


def mk_foldsel(n, tys, vs, bound, j):
    m = len(tys)
    f = tm.mk_fold(n, tys, vs, bound)
    return mk('app', 'foldsel', tys[j], f, const(j))


def trip_count(e, k):
    """smallest k with e(k), when e is linear in k with coefficient +-1."""
    neg_ = False
    x = e
    if x.op == 'ite' and x.a[1] is FALSE and x.a[2] is TRUE:
        neg_ = True
        x = x.a[0]
    if x.op not in ('le0', 'eq0'):
        if e is TRUE:
            return ZERO
        return None
    P = tm.poly(x.a[0])
    mk_ = ((k, 1),)
    c = P.get(mk_)
    if c is None or abs(c) != 1:
        return None
    rest = tm.frompoly({m: v for m, v in P.items() if m != mk_})
    if k in rest.fv or not tm.isint(rest):
        return None
    if x.op == 'eq0':
        if neg_:
            return None
        return mul(num(-c), rest)
    if neg_ and c == 1:        # exit when k + rest > 0  -> k = 1 - rest
        return sub(ONE, rest)
    if not neg_ and c == -1:   # exit when -k + rest <= 0 -> k = rest
        return rest
    return None
