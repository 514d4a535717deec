"""C15 memory safety and C16 values of the native pairwise violations."""
import os
import re
from .common import *
from .bigm import best
from ..evalt import Unk
from .. import cfront
from ..interp import Interp

F = tm.Fraction
K2 = mul(N, M)
AF = sym('AF', A1, (mul(K2, NV),))
BF = sym('BF', A1, (K2,))
VF = sym('VF', A1, (mul(K2, N),))


def translate(prog):
    """the Cython entry point and the kernel as modules; (kernel functions, entry)."""
    root = prog.root
    px = os.path.join(root, 'violations.pyx')
    if not os.path.exists(px):
        raise Anchor('violations.pyx')
    with open(px, encoding='utf-8') as f:
        src = f.read()
    ext = re.findall(r'cdef\s+extern\s+from\s+["\']([^"\']+)["\'][^:]*:\s*\n((?:[ \t]+.*\n|\s*\n)+)',
                     src)
    if not ext:
        raise cfront.Unsupported('no extern declaration')
    names = {}
    for h, body in ext:
        p = os.path.join(root, h)
        if not os.path.exists(p):
            raise cfront.Unsupported('header ' + h)
        u = cfront.Unit(p)
        mn = 'vkernel_' + re.sub(r'\W', '_', h)
        prog.modules.pop(mn, None)
        m = prog.load(mn, p, u.text)
        if m is None:
            raise cfront.Unsupported('translation of ' + h)
        relocate(m.tree, u.lines)
        for fn in re.findall(r'(\w+)\s*\(', body):
            if fn in m.defs:
                names[fn] = m
    prog.modules.pop('violations', None)
    mod = prog.load('violations', px, cfront.pyx(src))
    if mod is None:
        raise cfront.Unsupported('translation of violations.pyx')
    del prog.modules['violations']
    return names, mod.defs.get('compute_all_violations')


class Native:
    """the Cython entry point with the C++ kernel it calls, on flat symbolic buffers."""

    def __init__(self, prog, access=False):
        self.prog = prog
        names, entry = translate(prog)
        root = prog.root
        if entry is None:
            raise Anchor('compute_all_violations')
        self.mod = entry.mod
        self.ctx = ctx = Ctx(prog)
        ctx.instance()
        I = ctx.I
        I.fastprobe = True
        self.bufs = {}
        self.init = None
        self.notperm = []
        self.root = root
        self.calls = []
        self.access = access
        self.mod.defs['caddr'] = ('import', 'vkernel', 'caddr')
        for fn, m in names.items():
            self.mod.defs[fn] = ('import', 'vkernel', fn)
            I.stubs['ext:' + fn] = self.kernel(fn, m.defs[fn])
        I.stubs['ext:caddr'] = lambda I, args, kw, st, node: lit('U', *args)
        self.common(I)
        f = entry
        self.entry = f
        if access:
            I.trace_reads = self.touch
        mark = len(I.trace)
        v = I.call_func(f, [ctx.box(AA), ctx.box(BB)], {}, ctx.st, None)
        self.value = ctx.fz(v)
        self.effs = I.trace[mark:]
        del I.trace[mark:]
        I.trace_reads = False

    # ------------------------------------------------------------------------ library model
    def common(self, I):
        I.stubs['ext:vsort'] = self.vsort
        I.stubs['ext:crange'] = self.crange
        I.stubs['ext:vnew'] = self.vnew
        I.stubs['ext:vdelete'] = self.vdelete

    def vsort(self, I, args, kw, st, node):
        """std::sort of an array of the numbers 0..n-1 by a comparator: the order depends on the
        comparator only (ties in any order)."""
        arr, lo, hi, f = args
        n = I.freeze(hi, st)
        if lo is not num(0) or arr.op != 'ref' or arr.a[0] not in self.perm:
            raise cfront.Unsupported('sort of another range')
        c = I.freeze(arr, st)
        ok = permuted(c, n)
        if not ok:
            self.notperm.append((c, n, self.where(I, node, st)))
        size = self.bufs[arr.a[0]][1]
        if size is not n:
            I.eff('acc', (const('new[]%d' % arr.a[0]), sub(n, num(1)), size), st, node)
        p, q = kv(n, 'p'), kv(n, 'q')
        a0, I.trace_reads = I.trace_reads, False
        if f.op == 'none':
            r = lt(p, q)
        else:
            r = I.call(f, [p, q], {}, st, node)
        I.trace_reads = a0
        if a0:
            self.compaccess(I, f, p, q, n, st, node)
        T = tab('A', n, p, tab('A', n, q, I.freeze(r, st)))
        I.eff('sort', (n, T), st, node, g=TRUE)
        I.setbox(arr, app('sortperm', ('L', 'int'), n, T) if ok else tm.unk('sorted array'), st)
        return NONE

    def where(self, I, node, st):
        w = I.where(node, st)
        return '%s:%s (%s)' % (os.path.relpath(w[0], self.root), w[1], w[2])

    notperm = ()
    root = '/'

    def compaccess(self, I, f, p, q, n, st, node):
        """the accesses of the comparator, for any two elements of the range."""
        mark = len(I.trace)
        if f.op != 'none':
            I.call(f, [p, q], {}, st, node)
        for e in I.trace[mark:]:
            e.qs = [(p, n), (q, n)] + list(e.qs)

    def crange(self, I, args, kw, st, node):
        a, b, s = [I.freeze(I.D(x, st), st) for x in args]
        if s.op != 'n' or abs(s.a[0]) != 1:
            raise cfront.Unsupported('!= loop with another step')
        return I.lib.call_ext(I, 'builtins.range', [a, b, s], {}, st, node)

    perm = ()

    def vnew(self, I, args, kw, st, node):
        n = I.freeze(args[0], st)
        r = I.box(tab('L', n, kv(n), num(0)), st)
        self.perm = set(self.perm) | {r.a[0]}
        self.bufs[r.a[0]] = ('new[]', n)
        I.eff('new', (num(r.a[0]),), st, node)
        return r

    def vdelete(self, I, args, kw, st, node):
        a, arrayform = args
        if a.op != 'ref':
            raise cfront.Unsupported('delete')
        I.eff('delete', (num(a.a[0]), arrayform), st, node)
        return NONE

    # ------------------------------------------------------------------------------- kernel
    def kernel(self, fn, cf):
        def h(I, args, kw, st, node):
            self.calls.append(fn)
            cargs, table = [], None
            for a in args:
                if a.op == 'lit' and a.a[0] == 'U':
                    ref, ix = a.a[1], a.a[2:]
                    t = I.freeze(I.D(ref, st), st)
                    flat, sz, dims = self.flat(t, ref, st)
                    off = num(0)
                    for d, i in zip(dims, ix):
                        off = add(mul(off, d), i)
                    if flat is VF:
                        if table is not None:
                            raise cfront.Unsupported('two result tables')
                        table = ref, dims
                        self.init = t
                    r = I.box(flat, st)
                    if flat is VF:
                        self.vbox = r
                    self.bufs[r.a[0]] = (flat.a[0], sz)
                    cargs += [r, off]
                else:
                    cargs.append(a)
            if table is None:
                raise cfront.Unsupported('no result table')
            self.cargs = cargs
            I.call_func(cf, cargs, {}, st, node)
            R = I.freeze(self.vbox, st)
            self.flatresult = R
            ref, dims = table
            ks = [kv(d, 'd') for d in dims]
            off = num(0)
            for d, i in zip(dims, ks):
                off = add(mul(off, d), i)
            t = idx(R, off)
            for d, i in reversed(list(zip(dims, ks))):
                t = tab('A', d, i, t)
            if not I.setbox(ref, t, st):
                raise cfront.Unsupported('result table')
            return NONE
        return h

    def flat(self, t, ref, st):
        if tm.nokind(t) is tm.nokind(AA):
            return AF, mul(K2, NV), (N, M, NV)
        if tm.nokind(t) is tm.nokind(BB):
            return BF, K2, (N, M)
        dims = []
        x = t
        while kind(x) in ('A', 'L'):
            n = length(x)
            dims.append(n)
            x = idx(x, kv(n, 'd'))
        sz = num(1)
        for d in dims:
            sz = mul(sz, d)
        self.vdims = dims
        return VF, sz, dims

    # ------------------------------------------------------------------------------ accesses
    def touch(self, b, i, st, node, g=TRUE):
        I = self.ctx.I
        if b.op == 'ite':
            for h, x in tm.leafs(b, g):
                self.touch(x, i, st, node, h)
            return
        if b.op == 'none':
            I.eff('null', (), st, node, g=conj(st.g, g))
            return
        if b.op != 'ref' or b.a[0] not in self.bufs:
            return
        nm, sz = self.bufs[b.a[0]]
        if nm == 'new[]':
            nm = 'new[]%d' % b.a[0]
        I.eff('acc', (const(nm), i, sz), st, node, g=conj(st.g, g))


def permuted(c, n):
    """an array that holds 0..n-1 in some order (loop-carried values: by induction)."""
    if c.op == 'tab':
        k = kv(n)
        return tm.nokind(c) is tm.nokind(tab('L', n, k, k))
    if c.op in ('var', 'B'):
        return True
    if c.op == 'ite':
        return permuted(c.a[1], n) and permuted(c.a[2], n)
    if c.op == 'app' and c.a[0] == 'sortperm':
        return c.a[2] is n
    if c.op == 'app' and c.a[0] == 'foldsel' and c.a[2].op == 'fold':
        f, j = c.a[2], int(c.a[3].a[0])
        m = len(f.a[2])
        return permuted(f.a[3 + j], n) and permuted(f.a[3 + m + j], n)
    return False


def relocate(tree, lines):
    import ast
    for n in ast.walk(tree):
        if hasattr(n, 'lineno'):
            k = min(n.lineno, len(lines))
            n.lineno = n.end_lineno = lines[k-1]


def flatten(x):
    if isinstance(x, tuple):
        return tuple(z for y in x for z in flatten(y))
    return (x,)


def gens(init):
    def rows(ev):
        r = ev.rng('nat-A')
        n, m, v = [int(ev.ev(x, {})) for x in (N, M, NV)]
        big = r.choice((1, 1, 1, 1, 10**7))     # values are not bounded
        return tuple(tuple(tuple(F(r.choice((0, 0, 1, 2, 3, 4, 6, 9))*big, r.choice((1, 2)))
                                 for _ in range(v)) for _ in range(m)) for _ in range(n))

    def rhs(ev):
        r = ev.rng('nat-b')
        a = ev.ev(AA, {})
        return tuple(tuple(F(r.randint(0, 9), 8)*sum(row) if r.random() < 0.8
                           else F(r.randint(0, 6)) for row in rws) for rws in a)
    g = {AA: rows, BB: rhs, AF: lambda ev: flatten(ev.ev(AA, {})),
         BF: lambda ev: flatten(ev.ev(BB, {}))}
    if init is not None:
        g[VF] = lambda ev: flatten(ev.ev(init, {}))
    if not SHAPE:
        g[N] = lambda ev: ev.rng('nN').choice((1, 2, 2, 3))
        g[M] = lambda ev: ev.rng('nM').choice((1, 2, 2, 3))
        g[NV] = lambda ev: ev.rng('nV').choice((1, 2, 3, 3, 4))
    return g


def a_sortperm(ev, args):
    """a possible order: insertion sort from an arbitrary arrangement."""
    n, T = int(args[0]), args[1]
    import random
    order = list(range(n))
    random.Random(hash((ev.seed if hasattr(ev, 'seed') else 0, T))).shuffle(order)
    for a in range(1, n):
        x, b = order[a], a
        while b > 0 and T[x][order[b-1]]:
            order[b] = order[b-1]
            b -= 1
        order[b] = x
    return tuple(order)


APPS = {'sortperm': a_sortperm}
SITE = ('violations.h', '', 'computeAllViolations')


def knap(A, b, s, i, t, l):
    return best(A[s][i], A[t][l], b[t][l]) - b[s][i]


def tol(x):
    return F(1, 10**4)*max(1, abs(x))


def off_diagonal(lower):
    def pred(ev, v):
        R, A, b, k, m = v
        for s in range(int(k)):
            for t in range(int(k)):
                if s == t:
                    continue
                for i in range(int(m)):
                    ref = min(knap(A, b, s, i, t, l) for l in range(int(m)))
                    x = R[s][t][i]
                    if lower and x < ref - tol(ref) or not lower and x > ref + tol(ref):
                        return 'entry (%d, %d, %d) is %s, the violation is %s for A=%s b=%s' % (
                            s, t, i, x, ref, text(A), text(b))
        return True
    return pred


def diagonal(lower):
    def pred(ev, v):
        R, A, b, k, m = v
        for s in range(int(k)):
            for i in range(int(m)):
                x = R[s][s][i]
                ks = [knap(A, b, s, i, s, l) for l in range(int(m))]
                hi = min([F(0)] + [y for l, y in enumerate(ks) if l != i])
                lo = min([F(0)] + ks)
                if lower and x < lo - tol(lo) or not lower and x > hi + tol(hi):
                    return 'entry (%d, %d, %d) is %s, violations within the scenario %s for ' \
                        'A=%s b=%s' % (s, s, i, x, [str(y) for y in ks], text(A), text(b))
        return True
    return pred


def text(x):
    return str(x).replace('Fraction', '') if not isinstance(x, tuple) else \
        '[' + ', '.join(text(y) for y in x) + ']'


def shape_ok(ev, v):
    R, A, b, k, m = v
    k, m = int(k), int(m)
    return len(R) == k and all(len(x) == k and all(len(y) == m for y in x) for x in R) or \
        'the table does not have shape (scenarios, scenarios, constraints)'


def reference(prog, nat):
    """the same on the reference kernel, with the initial table of the source."""
    ctx = Ctx(prog)
    ctx.instance()
    I = ctx.I
    I.fastprobe = True
    n2 = object.__new__(Native)
    n2.ctx, n2.bufs, n2.access = ctx, {}, False
    n2.common(I)
    v = ctx.box(VF)
    _, eff = spec(ctx, 'native', 'kernel', ctx.box(AF), ctx.box(BF), N, NV, M, v)
    return ctx.fz(v), [e for e in eff if e.kind == 'sort']


def build(rep, access=False):
    try:
        nat = Native(rep.prog, access)
    except cfront.Unsupported as e:
        rep.und('kernel', 'violations.h', 'not analysable: %s' % e)
        return None
    rep.use(nat.ctx)
    if not nat.calls:
        rep.und('kernel', 'violations.h', 'the kernel is not called')
        return None
    if len(nat.calls) > 1:
        rep.und('kernel', 'violations.h', 'the kernel is called %d times' % len(nat.calls))
        return None
    return nat


def orders(rep, nat):
    """the arrays that are sorted hold every item once."""
    for c, n, where in nat.notperm:
        if c.unk or c.fv:
            continue
        with evalt.joint(gens(nat.init), APPS):
            for seed in range(12):
                ev = evalt.Eval(seed)
                try:
                    x, k = ev.ev(c, {}), int(ev.ev(n, {}))
                except (Unk, RecursionError):
                    continue
                if sorted(x[:k]) != list(range(k)):
                    return rep.bad('the sorted array holds every item once', where,
                                   'it holds %s of %d items' % (list(map(str, x)), k))
        rep.und('the sorted array holds every item once', where, tm.show(c, 3))
        return
    if nat.perm:
        rep.ok('the sorted array holds every item once', 'violations.h')


@rule('C16', 'kernel')
def c16a(rep):
    nat = build(rep)
    if nat is None:
        return
    site = 'violations.h (computeAllViolations)'
    orders(rep, nat)
    ok = False
    if list(nat.vdims) == [N, N, M] and not nat.notperm:
        s, t, i = kv(N, 's'), kv(N, 't'), kv(M, 'i')
        e = idx(idx(idx(nat.init, s), t), i)
        want = ite(eq(s, t), num(0), tm.INF)
        ok = tm.nokind(e) is tm.nokind(want)
    if ok and not os.environ.get('SA_NOREF'):
        ref, _ = reference(rep.prog, nat)
        ok = tm.nokind(ref) is tm.nokind(nat.flatresult) and retok(nat)
    rep.claims(ok, [nat.value, AA, BB, N, M],
               [('table has one entry per pair of scenarios and constraint', shape_ok),
                ('entries of different scenarios are at least the violation', off_diagonal(True)),
                ('entries of different scenarios are at most the violation', off_diagonal(False)),
                ('entries of a scenario with itself are at least the violation', diagonal(True)),
                ('entries of a scenario with itself are at most zero and the violations',
                 diagonal(False))],
               site, nat.effs, 'no error in the kernel', runs=400, gen=gens(nat.init), app=APPS)


def retok(nat):
    """the function returns the table the kernel wrote."""
    s, t, i = kv(N, 's'), kv(N, 't'), kv(M, 'i')
    e = idx(idx(idx(nat.value, s), t), i)
    f = idx(nat.flatresult, add(mul(add(mul(s, N), t), M), i))
    return tm.nokind(e) is tm.nokind(f)


# --------------------------------------------------------------------------- C15: bounds
def arms(n):
    """polynomials that bound a trip count from above."""
    if n.op == 'min':
        r = []
        for x in n.a:
            r += arms(x)
        return r
    if n.op == 'ite':
        b = arms(n.a[2])
        return [x for x in arms(n.a[1]) if x in b]
    if n.op == 'first':
        return arms(n.a[1])
    return [n]


def plain(t, vs):
    """polynomial in sizes and loop indices."""
    return all(x in vs or x in (N, M, NV) for m, _ in tm.poly(t).items() for x, e in m) and \
        all(e > 0 for m, _ in tm.poly(t).items() for x, e in m)


def signs(t, vs):
    """1 / -1 if the polynomial is known to be >= 0 / <= 0 (sizes are at least one)."""
    sz = {x: add(var_(x), num(1)) for x in (N, M, NV)}
    cs = [c for m, c in tm.poly(tm.subst(t, sz)).items()]
    if all(c >= 0 for c in cs):
        return 1
    if all(c <= 0 for c in cs):
        return -1
    return 0


_vs = {}


def var_(x):
    if x not in _vs:
        _vs[x] = kv(N, 'sz')
    return _vs[x]


def lower(P, qs):
    """P >= 0 for all values of the loop indices below their trip counts."""
    vs = {v for v, _ in qs}
    if not plain(P, vs):
        return False
    if not qs:
        return signs(P, vs) == 1
    if signs(P, vs) == 1:
        return True
    v, n = qs[-1]
    rest = qs[:-1]
    coef = []
    for m, c in tm.poly(P).items():
        e = dict(m).get(v, 0)
        if e > 1:
            return False
        if e == 1:
            x = num(c)
            for y, k in m:
                if y is not v:
                    for _ in range(k):
                        x = mul(x, y)
            coef.append(x)
    if not coef:
        return lower(P, rest)
    C = num(0)
    for x in coef:
        C = add(C, x)
    sg = signs(C, vs)
    for u in arms(n):
        at0, at1 = tm.subst(P, {v: num(0)}), tm.subst(P, {v: sub(u, num(1))})
        if sg == 1 and lower(at0, rest) or sg == -1 and lower(at1, rest) or \
                lower(at0, rest) and lower(at1, rest):
            return True
    return False


def facts(g):
    """polynomials that are at most zero where the guard holds."""
    out = []
    for c in (g.a if g.op == 'and' else (g,)):
        if c.op == 'le0':
            out.append(c.a[0])
        elif c.op == 'ite' and c.a[1] is FALSE and c.a[2] is TRUE and c.a[0].op == 'le0':
            out.append(sub(num(1), c.a[0].a[0]))
    return out


def within(e):
    """the access lies inside its array."""
    _, i, sz = e.args
    qs = list(e.qs)
    m = {}
    for x in tm.walk(i):
        if x.op == 'idx' and x.a[0].op == 'app' and x.a[0].a[0] == 'sortperm':
            m[x] = kv(x.a[0].a[2], 'w')
    # outermost replaced occurrences only
    if m:
        i = tm.subst(i, m)
        qs += [(v, x.a[0].a[2]) for x, v in m.items()]
    res = True
    for P in (i, sub(sub(sz, i), num(1))):
        if lower(P, qs):
            continue
        if not any(lower(add(P, f), qs) for f in facts(e.g)):
            res = False
    return res


def execs(ev, e):
    """environments in which the effect is executed."""
    def go(i, env):
        if i < len(e.qs):
            v, n = e.qs[i]
            for k in range(ev.rangeof(n, env)):
                x = dict(env)
                x[v] = k
                yield from go(i + 1, x)
        elif ev.ev(e.g, env) is True:
            yield env
    yield from go(0, {})


def outside(nat, effs, what):
    """valuation under which what(ev, effect, env) reports a message."""
    with evalt.joint(gens(nat.init), APPS):
        for seed in range(40):
            ev = evalt.Eval(seed)
            for e in effs:
                try:
                    for env in execs(ev, e):
                        r = what(ev, e, env)
                        if r:
                            sizes = [int(ev.ev(x, {})) for x in (N, M, NV)]
                            return e, '%s with %d scenarios, %d constraints, %d items' % (
                                (r,) + tuple(sizes))
                except (Unk, RecursionError):
                    continue
    return None


def cwhere(nat, e):
    return '%s:%s (%s)' % (os.path.relpath(e.site[0], nat.root), e.site[1], e.site[2])


@rule('C15', 'memory')
def c15(rep):
    nat = build(rep, True)
    if nat is None:
        return
    orders(rep, nat)
    acc = [e for e in nat.effs if e.kind == 'acc']
    rep.sites += len(acc)
    groups = {}
    for e in acc:
        groups.setdefault((e.site[1], e.site[2], e.args[0].a[0].rstrip('0123456789')), []).append(e)

    def oob(ev, e, env):
        i, n = ev.ev(e.args[1], env), ev.ev(e.args[2], env)
        if not 0 <= i < n:
            return 'element %s of an array of %s elements' % (i, n)
    if not acc:
        rep.und('accesses', 'violations.h', 'no access seen')
    for (ln, fn, nm), es in sorted(groups.items()):
        name = 'access to %s in %s' % (NAMES.get(nm, nm), fn)
        bad = [e for e in es if not within(e)]
        if not bad:
            rep.ok(name, cwhere(nat, es[0]))
            continue
        r = outside(nat, bad, oob)
        if r:
            rep.bad(name, cwhere(nat, r[0]), r[1])
        else:
            rep.und(name, cwhere(nat, bad[0]), 'index %s not bounded' % tm.show(bad[0].args[1], 3))
    null = [e for e in nat.effs if e.kind == 'null']
    r = outside(nat, null, lambda ev, e, env: 'null pointer dereferenced')
    if r:
        rep.bad('no null pointer is dereferenced', cwhere(nat, r[0]), r[1])
    elif null:
        rep.und('no null pointer is dereferenced', cwhere(nat, null[0]))
    else:
        rep.ok('no null pointer is dereferenced', 'violations.h')
    release(rep, nat)
    comparators(rep, nat)


NAMES = {'AF': 'the matrix', 'BF': 'the right-hand side', 'VF': 'the result table',
         'new[]': 'the work array'}


def release(rep, nat):
    effs = nat.effs
    news = [e for e in effs if e.kind == 'new']
    dels = [e for e in effs if e.kind == 'delete']
    for e in news:
        mine = [(k, d) for k, d in enumerate(effs)
                if d.kind == 'delete' and d.args[0] is e.args[0]]
        w = cwhere(nat, e)
        name = 'work array is released once with the matching form'
        if any(d.args[1] is FALSE for _, d in mine):
            rep.bad(name, cwhere(nat, mine[0][1]), 'array released with delete')
            continue
        late = [a for k, d in mine for a in effs[k:] if a.kind == 'acc' and not d.qs
                and a.args[0].a[0] == 'new[]%d' % int(e.args[0].a[0])]
        if late:
            rep.bad(name, cwhere(nat, late[0]), 'used after its release')
            continue
        if len(mine) == 1 and mine[0][1].g is TRUE and e.g is TRUE and not e.qs \
                and not mine[0][1].qs:
            rep.ok(name, w)
            continue
        res = None
        with evalt.joint(gens(nat.init), APPS):
            for seed in range(40):
                ev = evalt.Eval(seed)
                try:
                    a = sum(1 for _ in execs(ev, e))
                    b = sum(1 for _, d in mine for _ in execs(ev, d))
                except (Unk, RecursionError):
                    continue
                if a != b:
                    res = 'allocated %d times, released %d times' % (a, b)
                    break
        if res:
            rep.bad(name, w, res)
        else:
            rep.und(name, w)
    known = {e.args[0] for e in news}
    for d in dels:
        if d.args[0] not in known:
            rep.bad('only allocated memory is released', cwhere(nat, d), 'delete of other memory')


def ratio_matrix(n, x, y):
    """reference comparator on the elements of AF from x and y on."""
    p, q = kv(n, 'p'), kv(n, 'q')
    px, wx, py, wy = [idx(AF, add(b, v)) for v in (p, q) for b in (x, y)]
    z = num(0)
    e = ite(conj(eq(px, z), eq(wx, z)), FALSE,
            ite(conj(eq(py, z), eq(wy, z)), TRUE, lt(mul(py, wx), mul(px, wy))))
    return tab('A', n, p, tab('A', n, q, e))


def comparators(rep, nat):
    name = 'the order given to std::sort is a strict weak order'
    for e in nat.effs:
        if e.kind != 'sort':
            continue
        n, T = e.args
        w = cwhere(nat, e)
        p, q = kv(n, 'p'), kv(n, 'q')
        body = idx(idx(T, p), q)
        bases = []
        for x in tm.walk(body):
            if x.op == 'idx' and x.a[0] is AF and p in x.a[1].fv and q not in x.a[1].fv:
                b = sub(x.a[1], p)
                if b not in bases and p not in b.fv:
                    bases.append(b)
        if any(ratio_matrix(n, x, y) is T for x in bases for y in bases):
            rep.ok(name, w)
            continue
        r = weak(nat, e)
        if r:
            rep.bad(name, w, r)
        else:
            rep.und(name, w, 'not the known order')


def weak(nat, e):
    n, T = e.args
    with evalt.joint(gens(nat.init), APPS):
        for seed in range(60):
            ev = evalt.Eval(seed)
            try:
                for env in execs(ev, e):
                    k, L = int(ev.ev(n, env)), ev.ev(T, env)
                    R = range(k)
                    for a in R:
                        if L[a][a]:
                            return 'an item is before itself'
                        for b in R:
                            if L[a][b] and L[b][a]:
                                return 'two items are before each other'
                            for c in R:
                                if L[a][b] and L[b][c] and not L[a][c]:
                                    return 'not transitive'
                                if not (L[a][b] or L[b][a] or L[b][c] or L[c][b]) \
                                        and (L[a][c] or L[c][a]):
                                    return 'equivalence of items is not transitive'
            except (Unk, RecursionError):
                continue
    return None


# second look (fixed sizes) unrolls the kernel and is not feasible
for _p in ('C15', 'C16'):
    from . import REG
    REG[_p].shapes = False
