"""C13 naive and knapsack big-M values, C14 quantile big-M values."""
import math
from .common import *
from ..evalt import Unk
from ..lib import recorder

F = tm.Fraction
VUB = sym('vUB', 'num')
SCOST = sym('scost', A1, (N,))
VIOL = sym('viol', ('A', ('A', A1)), (N, N, M))
METHODS = ('naive', 'belotti', 'song')


def stub_song(ctx):
    """the pairwise violations are an arbitrary table; its computation is C15/C16."""
    def h(I, args, kw, st, node):
        I.eff('pairwise', [I.freeze(I.D(x, st), st) for x in args] +
              [I.freeze(I.D(kw[k], st), st) for k in sorted(kw)], st, node)
        return I.box(VIOL, st)
    ctx.I.stubs['ext:compute_all_violations'] = h


class Case:
    """a finder over the scenarios or over the subsets of a symbolic partition."""

    def __init__(self, prog, part):
        self.part = part
        self.ctx = ctx = Ctx(prog)
        stub_song(ctx)
        self.base = self.inst = ctx.instance()
        self.n = N
        if part:
            self.inst = ctx.partition_instance()
            ctx.call(self.inst, 'load_partition', L, ctx.box(PART))
            self.n = L
        self.f = ctx.new('BigMFinder', self.inst)
        del ctx.I.trace[:]
        self.tag = 'subsets' if part else 'scenarios'
        self.s = kv(self.n, 's')
        self.i = kv(mul(M, length(idx(PART, self.s))) if part else M, 'i')
        if part:
            self.scen = idx(idx(PART, self.s), mk('fdiv', self.i, M))
            self.row = mk('mod', self.i, M)
        else:
            self.scen, self.row = self.s, self.i

    def update(self, method, vub=VUB):
        kw = {}
        if method == 'song':
            kw['chance_instance'] = self.base
            if self.part:
                kw['partition'] = self.ctx.box(PART)
        return take(self.ctx, lambda: self.ctx.call(self.f, 'update_big_M', self.n, vub,
                                                    method=const(method), **kw))[1]

    def entry(self):
        t = self.ctx.fz(self.ctx.call(self.f, 'get_vector_big_M', self.s))
        return idx(t, self.i)

    def data(self):
        return idx(idx(AA, self.scen), self.row), idx(idx(BB, self.scen), self.row)


def naive(c):
    a, b = c.data()
    j = kv(NV)
    return sub(tsum(NV, j, idx(a, j)), b)


@rule('C13', 'naive')
def c13a(rep):
    for part in (False, True):
        c = Case(rep.prog, part)
        site = fsite(rep.prog, 'BigMFinder', 'update_big_M')
        rep.eq('initial value over %s' % c.tag, c.entry(), naive(c),
               fsite(rep.prog, 'BigMFinder', '__init__'), 'sum of the row minus right-hand side')
        c.update('naive')
        rep.eq('naive value over %s' % c.tag, c.entry(), naive(c), site,
               'sum of the row minus right-hand side')
        # nothing of an earlier method survives
        c.update('belotti')
        c.update('naive')
        rep.eq('naive value after another method over %s' % c.tag, c.entry(), naive(c), site,
               'sum of the row minus right-hand side')
        rep.use(c.ctx)


# ------------------------------------------------------------------------- knapsack bound
def best(profit, weight, cap):
    """largest profit of a fractional knapsack, by exchange from the best ratio."""
    val = sum((p for p, w in zip(profit, weight) if w == 0 and p > 0), F(0))
    left = F(cap)
    for r, p, w in sorted(((F(p)/F(w), p, w) for p, w in zip(profit, weight)
                           if w > 0 and p > 0), reverse=True):
        q = min(F(1), left/w)
        if q <= 0:
            break
        val += q*p
        left -= q*w
    return val


def knap_gens(uniform=False):
    def cost(ev):
        n = int(ev.ev(NV, {}))
        r = ev.rng('knap-c')
        return tuple(F(r.choice((0, 1, 2, 3, 4, 5, 7))) for _ in range(n))

    def cap(ev):
        t = sum(ev.ev(CC, {}))
        return F(ev.rng('cap').randint(0, 12), 8)*t/1 if t else F(ev.rng('cap').randint(0, 3))

    def rows(ev):
        r = ev.rng('knap-A')
        n, m, v = [int(ev.ev(x, {})) for x in (N, M, NV)]
        return tuple(tuple(tuple(F(r.choice((0, 1, 2, 3, 4, 6, 9))) for _ in range(v))
                           for _ in range(m)) for _ in range(n))

    def scost(ev):
        n = int(ev.ev(N, {}))
        t = sum(ev.ev(CC, {}))
        return tuple(F(ev.rng('sc', i).randint(0, 16), 16)*t for i in range(n))
    g = {CC: cost, VUB: cap, AA: rows, SCOST: scost}
    if not SHAPE:
        g[NV] = lambda ev: ev.rng('NV').randint(1, 5)
    return g


def knap_claims(c):
    a, b = c.data()

    def parts(ev, v):
        val, row, rhs, cost, cap = v
        return F(val), best(row, cost, cap) - rhs, (row, rhs, cost, cap)

    def show(x, ref, d):
        return 'value %s, largest violation %s for row %s, rhs %s, costs %s, bound %s' % (
            x, ref, [str(y) for y in d[0]], d[1], [str(y) for y in d[2]], d[3])

    def valid(ev, v):
        x, ref, d = parts(ev, v)
        return x >= ref - F(1, 10**6)*max(1, abs(ref)) or show(x, ref, d)

    def tight(ev, v):
        x, ref, d = parts(ev, v)
        return x <= ref + F(1, 10**4)*max(1, abs(ref)) or show(x, ref, d)
    return a, b, valid, tight


def knap_ref(prog, c, cap):
    c2 = Ctx(prog)
    c2.instance()
    a, b = c.data()
    v, _ = spec(c2, 'bigm', 'knapsack', a, b, CC, cap)
    return c2.fz(v)


@rule('C13', 'knapsack-continuous')
def c13b(rep):
    site = fsite(rep.prog, 'BigMFinder', 'run_belotti_et_al_big_M')
    for part in (False, True):
        c = Case(rep.prog, part)
        c.update('naive')
        eff = c.update('belotti')
        e = restrict(c.entry(), CONT)
        a, b, valid, tight = knap_claims(c)
        ref = knap_ref(rep.prog, c, VUB)
        effs = [x for x in eff if conj(x.g, CONT) is not FALSE]
        for x in effs:
            x.g = restrict(x.g, CONT)
        rep.claims(tm.nokind(e) is tm.nokind(ref), [e, a, b, CC, VUB],
                   [('continuous: big-M over %s is at least the largest violation' % c.tag, valid),
                    ('continuous: big-M over %s is not larger than that' % c.tag, tight)],
                   site, effs, 'continuous: no error over %s' % c.tag, gen=knap_gens())
        rep.use(c.ctx)


@rule('C13', 'knapsack-binary')
def c13c(rep):
    site = fsite(rep.prog, 'BigMFinder', 'run_belotti_et_al_big_M')
    for part in (False, True):
        c = Case(rep.prog, part)
        eff = c.update('belotti')
        eff = [x for x in eff if conj(x.g, nt(CONT)) is not FALSE]
        for x in eff:
            x.g = restrict(x.g, nt(CONT))
            x.args = tuple(restrict_deep(a, CONT, FALSE) for a in x.args)
        c2 = Ctx(rep.prog)
        c2.instance()
        if part:
            v, ref = spec(c2, 'bigm', 'belotti_part', AA, BB, PART, L, M, NV, CC, VUB)
        else:
            v, ref = spec(c2, 'bigm', 'belotti_plain', AA, BB, N, M, NV, CC, VUB)
        rep.traces('binary: knapsack problems over %s' % c.tag, eff, ref, site, ('param',))
        e = restrict_deep(restrict(c.entry(), nt(CONT)), CONT, FALSE)
        at = [x for x in tm.walk(e) if x.op == 'app' and x.a[0] == 'grb']
        attr = [x.a[2].a[0] for x in at]
        rep.holds('binary: the proven bound of the solver is used over %s' % c.tag,
                  None if len(at) != 1 or e is not at[0] else attr[0] in ('ObjBound', 'ObjBoundC'),
                  site, 'attribute %s is not an upper bound of the violation' % attr)
        gaps = [x for x in eff if x.kind == 'param' and x.args[1] is const('MIPGap')]
        rep.holds('binary: knapsack gap over %s' % c.tag,
                  None if not gaps or any(x.args[2].op != 'n' for x in gaps) else
                  all(0 <= x.args[2].a[0] <= F(1, 10**6) for x in gaps), site,
                  'the solver may stop early: %s' % [str(x) for x in gaps][:2])
        rep.use(c.ctx)


def restrict_deep(t, sym_, val):
    return subst(t, {sym_: val})


@rule('C13', 'unknown-method')
def c13d(rep):
    site = fsite(rep.prog, 'BigMFinder', 'update_big_M')
    for part in (False, True):
        c = Case(rep.prog, part)
        m = sym('method', 'str')
        kw = {'chance_instance': c.base}
        if part:
            kw['partition'] = c.ctx.box(PART)
        eff = take(c.ctx, lambda: c.ctx.call(c.f, 'update_big_M', c.n, VUB, method=m, **kw))[1]
        g = FALSE
        for x in eff:
            if x.kind == 'raise' and not x.qs:
                g = disj(g, x.g)
        for nm in METHODS + ('other',):
            h = subst(g, {m: const(nm)})
            want = TRUE if nm == 'other' else FALSE
            rep.holds('method %s %s over %s' % (nm, 'rejected' if want is TRUE else 'accepted',
                                                c.tag),
                      h is want if h in (TRUE, FALSE) else None, site,
                      'update_big_M raises for method %r: %s' % (nm, h))
        rep.use(c.ctx)


def milp(rep, method):
    """the finder that the extended formulation is solved with."""
    ctx = Ctx(rep.prog)
    I = ctx.I
    stub_song(ctx)
    inst = ctx.instance()
    hit = []

    def costs(I, f, env, st, node):
        hit.append(1)
        return I.box(SCOST, st)
    I.stubs['Evaluator.get_all_single_scenario_costs'] = costs
    got = []

    def solve(I, f, env, st, node):
        names = [a.arg for a in f.node.args.args if a.arg != 'self']
        got.append({n: env[n] for n in names if n in env})
        return lit('U', *[sym('~r%d' % i, 'num') for i in range(4)])
    I.stubs['Solver.solve_cclp_model'] = solve
    I.stubs['MilpSolver.solve_cclp_model'] = solve
    s = ctx.new('MilpSolver', inst)
    ctx.call(s, 'solve', use_big_m=TRUE, big_m_method=const(method))
    return ctx, inst, got, hit


@rule('C13', 'extended-formulation')
def c13e(rep):
    site = fsite(rep.prog, 'MilpSolver', 'solve')
    c = Case(rep.prog, False)
    for method in ('naive', 'belotti'):
        ctx, inst, got, hit = milp(rep, method)
        nm = 'extended formulation uses the %s values' % method
        rep.use(ctx)
        f = got[0].get('bigMFinder') if len(got) == 1 else None
        if f is None or f.op != 'ref':
            rep.und(nm, site, 'solve_cclp_model is not called once with a big-M finder')
            continue
        e = idx(ctx.fz(ctx.call(f, 'get_vector_big_M', c.s)), c.i)
        if method == 'naive':
            rep.eq(nm, e, naive(c), site)
            continue
        if not hit:
            rep.und(nm, site, 'single-scenario costs are not read from the evaluator')
            continue
        e = restrict(e, CONT)
        c2 = Ctx(rep.prog)
        c2.instance()
        v = c2.fz(spec(c2, 'bounds', 'quantile_bound', SCOST, PR, EPS, num(1e-7))[0])
        a, b, valid, tight = knap_claims(c)
        ref = knap_ref(rep.prog, c, v)
        rep.claims(tm.nokind(e) is tm.nokind(ref), [e, a, b, CC, v],
                   [(nm + ': valid for the quantile bound', valid),
                    (nm + ': not larger', tight)], site, gen=knap_gens())


# ------------------------------------------------------------------------ quantile bound
def song_gens():
    def n(ev):
        r = ev.rng('song-N')
        return r.randint(1, 6) if r.random() < 0.7 else r.randint(7, 14)

    def t(ev):
        return ev.rng('song-t').randint(0, int(ev.ev(N, {})) - 1)

    def viol(ev):
        k, m = int(ev.ev(N, {})), int(ev.ev(M, {}))
        r = ev.rng('song-viol')
        return tuple(tuple(tuple(F(r.randint(-30, 60)) for _ in range(m)) for _ in range(k))
                     for _ in range(k))
    def subsets(ev):
        k = int(ev.ev(N, {}))
        lo = min(k, t(ev) + 1)
        r = ev.rng('song-L')
        return lo if r.random() < 0.3 else r.randint(lo, k)
    g = {EPS: lambda ev: (t(ev) + ev.rng('song-e').choice(
            (F(0), F(1, 2), F(9, 10), F(1, 10**9))))/int(ev.ev(N, {})),
         PR: lambda ev: (F(1, int(ev.ev(N, {}))),)*int(ev.ev(N, {})),
         VIOL: viol}
    if not SHAPE:
        g[N] = n
        g[L] = subsets
    return g


def song_claims(c):
    def parts(ev, v):
        val, vi, scen, row, part, eps, n = v
        k = math.floor(F(eps)*int(n) + F(1, 10**6))
        xs = [vi[int(scen)][t][int(row)] for t in range(int(n))]
        if c.part:
            xs = [min(xs[int(t)] for t in p) for p in part]
        xs.sort()
        return F(val), xs, k

    def valid(ev, v):
        x, xs, k = parts(ev, v)
        return x >= xs[min(k, len(xs) - 1)] or \
            'value %s, but %d of the violations %s may be ignored' % (x, k, [str(y) for y in xs])

    def tight(ev, v):
        x, xs, k = parts(ev, v)
        return x <= xs[min(k + 1, len(xs) - 1)] or \
            'value %s, violations %s, tolerance %d' % (x, [str(y) for y in xs], k)
    return valid, tight


def song_ref(prog, c):
    c2 = Ctx(prog)
    c2.instance()
    if c.part:
        pi = c2.partition_instance()
        c2.call(pi, 'load_partition', L, c2.box(PART))
        e = c2.fz(c2.call(pi, 'get_epsilon'))
        v, _ = spec(c2, 'bigm', 'song_part', VIOL, PART, L, c.s, c.i, M, e)
    else:
        v, _ = spec(c2, 'bigm', 'song_plain', VIOL, c.s, c.i, N, EPS)
    return c2.fz(v)


def song_obs(rep, c, e, effs, tag, site):
    valid, tight = song_claims(c)
    ref = song_ref(rep.prog, c)
    rep.claims(tm.nokind(e) is tm.nokind(ref), [e, VIOL, c.scen, c.row,
                                                 PART if c.part else NONE, EPS, N],
               [('quantile big-M over %s%s: valid' % (c.tag, tag), valid),
                ('quantile big-M over %s%s: not larger' % (c.tag, tag), tight)],
               site, effs, 'quantile big-M over %s%s: no error' % (c.tag, tag), gen=song_gens())


@rule('C14', 'quantile')
def c14a(rep):
    site = fsite(rep.prog, 'BigMFinder', 'run_song_et_al_big_m')
    for part in (False, True):
        c = Case(rep.prog, part)
        eff = c.update('song')
        song_obs(rep, c, c.entry(), eff, '', site)
        if not part:
            roundoff(rep, 'quantile', c.entry(), site)
        pw = [x for x in eff if x.kind == 'pairwise']
        nm = 'violations are those of all scenarios, from %s' % c.tag
        if len(pw) == 1 and len(pw[0].args) == 2:
            rep.holds(nm, {True: True}.get(
                [tm.nokind(a) for a in pw[0].args] == [tm.nokind(AA), tm.nokind(BB)],
                None if any(a.unk for a in pw[0].args) else False), rep.loc(pw[0].site),
                'computed from %s' % [tm.show(a, 4) for a in pw[0].args])
        else:
            rep.und(nm, site, 'not computed once')
        # a later call (new partition, new values) starts from the same table
        eff = c.update('belotti')
        eff = c.update('song')
        song_obs(rep, c, c.entry(), eff, ' on a later call', site)
        rep.use(c.ctx)


@rule('C14', 'extended-formulation')
def c14b(rep):
    site = fsite(rep.prog, 'MilpSolver', 'solve')
    c = Case(rep.prog, False)
    ctx, inst, got, hit = milp(rep, 'song')
    rep.use(ctx)
    f = got[0].get('bigMFinder') if len(got) == 1 else None
    nm = ' in the extended formulation'
    if f is None or f.op != 'ref':
        return rep.und('quantile big-M' + nm, site,
                       'solve_cclp_model is not called once with a big-M finder')
    e = idx(ctx.fz(ctx.call(f, 'get_vector_big_M', c.s)), c.i)
    song_obs(rep, c, e, ctx.I.trace, nm, site)
