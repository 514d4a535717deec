"""C09 partition integrity, C10 splitting, C11 merging."""
from .common import *
from .. import evalt
from ..evalt import Unk
from ..lib import recorder

INFM = sym('infeas', ('L', 'bool'), (N,))
XX = sym('x', A1, (NV,))
SPLITC = sym('costs', ('L', 'num'), (L,))
VUB = sym('vUB', 'num')
F = tm.Fraction


def REG_SHAPES(p):
    """no fixed-size second look: refutation already evaluates concrete sizes."""
    from . import REG, Spec
    REG.setdefault(p, Spec()).shapes = False


# ------------------------------------------------------------- admissible refinement inputs
def scen(ev):
    """scenarios, tolerance, infeasible scenarios and a partition whose relaxation tolerates
    the solution while the true constraint does not: at most t infeasible subsets, at least
    t+1 infeasible scenarios."""
    r = ev.rng('scen')
    if SHAPE:
        n = SHAPE[0]
        p = [[i for i in range(n) if i % 2 == j] for j in range(2)]
        for _ in range(200):
            t = r.randint(1, n - 1)
            inf = set(r.sample(range(n), r.randint(t + 1, n)))
            if sum(1 for q in p if set(q) & inf) <= t:
                break
        else:
            raise Unk('no admissible input')
    else:
        n = r.randint(2, 7)
        t = r.randint(1, n - 1)
        k = r.randint(t + 1, n)
        q = r.randint(1, t)
        f = r.randint(0, n - k)
        xs = list(range(n))
        r.shuffle(xs)
        inf, fe = xs[:k], xs[k:]
        p = [[x] for x in inf[:q]]
        for x in inf[q:]:
            r.choice(p).append(x)
        p += [[x] for x in fe[:f]]
        for x in fe[f:]:
            r.choice(p).append(x)
        r.shuffle(p)
        for s in p:
            r.shuffle(s)
    eps = (t + r.choice((F(0), F(1, 2), F(9, 10), F(9999, 10000), -F(1, 10**8), F(1, 10**8))))/n
    return n, p, set(inf), t, eps


def split_gens():
    g = {INFM: lambda ev: tuple(i in scen(ev)[2] for i in range(scen(ev)[0])),
         EPS: lambda ev: scen(ev)[4],
         XX: lambda ev: (0,) * int(ev.ev(NV, {})),
         BB: _rhs}
    if not SHAPE:
        g.update({N: lambda ev: scen(ev)[0], L: lambda ev: len(scen(ev)[1]),
                  PART: lambda ev: tuple(tuple(s) for s in scen(ev)[1])})
    return g


def _rhs(ev):
    n, _p, inf, _t, _e = scen(ev)
    m = int(ev.ev(M, {}))
    r = ev.rng('rhs')
    out = []
    for s in range(n):
        row = [r.randint(0, 5) for _ in range(m)]
        if s in inf:
            row[r.randrange(m)] = -r.randint(1, 5)
        out.append(tuple(row))
    return tuple(out)


def _acc(side):
    def f(ev, args):
        sc, inf = [list(ev.seq(a)) for a in args[:2]]
        r = ev.rng('acc', tuple(sorted(sc)), tuple(sorted(inf)))
        inf = sorted(inf)
        r.shuffle(inf)
        left, right = inf[:1], inf[1:2]
        for x in inf[2:] + sorted(set(sc) - set(inf)):
            r.choice((left, right)).append(x)
        return tuple(sorted((left, right)[side]))
    return f


ACC = {'acc_left': _acc(0), 'acc_right': _acc(1)}


# --------------------------------------------------------------------------- claims
def lists(v):
    return [list(x) for x in v]


def integrity(n, part):
    flat = [s for p in part for s in p]
    if any(len(p) == 0 for p in part):
        return 'a subset of %s is empty' % (part,)
    if sorted(flat) != list(range(n)):
        return '%s does not hold each of %d scenarios once' % (part, n)
    return True


def split_claims():
    def data(ev, v):
        n, old, inf, t, _e = scen(ev)
        return n, [list(p) for p in old], inf, t, int(v[0]), lists(v[1]), [int(c) for c in v[2]]

    def integ(ev, v):
        n, old, inf, t, k, new, ch = data(ev, v)
        return integrity(n, new)

    def size(ev, v):
        n, old, inf, t, k, new, ch = data(ev, v)
        q = sum(1 for p in old if inf & set(p))
        return k == len(new) == len(old) + t + 1 - q or \
            '%d infeasible subsets of %s (tolerance %d) must be split into %d subsets, not %s' % (
                q, old, t, len(old) + t + 1 - q, new)

    def excl(ev, v):
        n, old, inf, t, k, new, ch = data(ev, v)
        q = sum(1 for p in new if inf & set(p))
        return q > t or 'only %d of the subsets %s hold an infeasible scenario of %s, ' \
            'tolerance %d' % (q, new, sorted(inf), t)

    def refines(ev, v):
        n, old, inf, t, k, new, ch = data(ev, v)
        return all(any(set(p) <= set(o) for o in old) for p in new) or \
            '%s does not refine %s' % (new, old)

    def changed(ev, v):
        n, old, inf, t, k, new, ch = data(ev, v)
        want = [c for c in range(len(new)) if c >= len(old) or set(old[c]) != set(new[c])]
        return sorted(ch) == want or 'new_subsets %s, but %s changed' % (ch, want)
    return integ, size, excl, refines, changed


_runs = {}


def split_run(prog, cname):
    """(ctx, [size, partition, new_subsets], effects, proved?, reason) of one refinement."""
    key = (id(prog), cname)
    if key in _runs:
        return _runs[key]
    acc = TRUE if cname == 'CostRefiner' else FALSE
    ctx = Ctx(prog)
    I = ctx.I
    inst = ctx.instance()
    ctx.call(inst, 'check_feasibility', XX)
    abstract(ctx, inst)
    del I.trace[:]
    hit = []

    def split(I, f, env, st, node):
        hit.append(1)
        nm = [a.arg for a in f.node.args.args if a.arg != 'self']
        a = [I.freeze(I.D(env[n], st), st) for n in nm[:2]]
        return lit('U', app('acc_cost', 'num', *a), I.box(app('acc_left', ('L', 'int'), *a), st),
                   I.box(app('acc_right', ('L', 'int'), *a), st))
    if acc is TRUE:
        I.stubs['CostRefiner.accurate_obj_split'] = split
    r = ctx.new(cname, inst, use_acc_obj=acc)
    if acc is TRUE:
        ctx.setfield(r, 'vUB', VUB)
        ctx.setfield(r, 'subset_costs', ctx.box(SPLITC))
    res = ctx.fz(ctx.call(r, 'refine', ctx.box(PART), XX))
    new = ctx.field(r, 'new_subsets')
    why = ''
    if acc is TRUE and not hit:
        why = 'accurate_obj_split is not what refine calls'
    if new is None or kind(res) != 'U' or res.op != 'lit':
        why = 'result of refine not recognised'
    out = [idx(res, num(0)), idx(res, num(1)), ctx.fz(new)] if not why else None
    proved = False
    if not why:
        c2 = Ctx(prog)
        i2 = c2.instance()
        k = kv(N)
        fl, bad = c2.box(tab('L', N, k, idx(INFM, k))), c2.box(tm.ftab('L', N, k, idx(INFM, k), k))
        if acc is TRUE:
            c2.I.stubs['CostRefiner.accurate_obj_split'] = split
            r2 = c2.new(cname, i2, use_acc_obj=acc)
            v, _ = spec(c2, 'refine', 'refine_cost', c2.box(PART), bad, EPS, N, c2.box(SPLITC),
                        VUB, r2)
        else:
            v, _ = spec(c2, 'refine', 'refine_random', c2.box(PART), fl, bad, EPS, N)
        v = c2.fz(v)
        ref = [idx(v, num(i)) for i in range(3)]
        proved = all(tm.nokind(a) is tm.nokind(b) for a, b in zip(out, ref))
        if getattr(evalt, 'DEBUG_REF', None) is not None:
            evalt.DEBUG_REF.append((out, ref))
    _runs[key] = (ctx, out, [e for e in I.trace], proved, why)
    return _runs[key]


def abstract(ctx, inst):
    """what check_feasibility stored, as a function of an arbitrary set of infeasible
    scenarios."""
    k = kv(N)
    fl = ctx.fields(inst)
    fz = {f: ctx.fz(v) for f, v in fl.items()}
    rep = {}
    for f, t in fz.items():
        if t.op == 'tab' and tm.length(t) is N or t.op == 'lit' and SHAPE:
            try:
                b = idx(t, k)
            except Exception:
                continue
            if typ(b) == 'bool' and AA in set(tm.walk(b)):
                rep[tm.nokind(t)] = tab('L', N, k, idx(INFM, k))
                rep[tm.nokind(tm.ftab('L', N, k, b, k))] = tm.ftab('L', N, k, idx(INFM, k), k)
                rep[tm.nokind(tab('L', N, k, nt(b)))] = tab('L', N, k, nt(idx(INFM, k)))
    for f, t in fz.items():
        x = rep.get(tm.nokind(t))
        if x is not None:
            ctx.setfield(inst, f, ctx.box(x))
        elif kind(t) in ('L', 'A') and AA in set(tm.walk(t)) and t.op == 'tab' and \
                typ(idx(t, k)) == 'num':
            ctx.setfield(inst, f, ctx.box(sym('viol', A1, (N,))))


def do_split(rep, cname, which, noraise=False):
    site = fsite(rep.prog, cname, 'refine')
    ctx, out, effs, proved, why = split_run(rep.prog, cname)
    rep.use(ctx)
    integ, size, excl, refines, changed = split_claims()
    names = {'C09': [('%s.refine: every scenario once, no empty subset', integ)],
             'C10': [('%s.refine: as many splits as needed', size),
                     ('%s.refine: last solution excluded', excl),
                     ('%s.refine: refines the partition', refines),
                     ('%s.refine: changed subsets reported', changed)]}[which]
    names = [(n % cname, p) for n, p in names]
    if why:
        for n, _ in names:
            rep.und(n, site, why)
        return
    rep.claims(proved, out, names, site, effs if noraise else (),
               '%s.refine: terminates without an error' % cname if noraise else None,
               gen=split_gens(), app=ACC)


for _p in ('C09', 'C10', 'C11'):
    REG_SHAPES(_p)


@rule('C09', 'random-refiner')
def c09a(rep):
    do_split(rep, 'RandomRefiner', 'C09')


@rule('C09', 'cost-refiner')
def c09b(rep):
    do_split(rep, 'CostRefiner', 'C09')


@rule('C10', 'random-refiner')
def c10a(rep):
    do_split(rep, 'RandomRefiner', 'C10', True)


@rule('C10', 'cost-refiner')
def c10b(rep):
    do_split(rep, 'CostRefiner', 'C10', True)


# ------------------------------------------------------------------ initial partitions
KK = sym('K', 'int')
SC = sym('scost', A1, (N,))


def init_run(prog, kind_):
    ctx = Ctx(prog)
    I = ctx.I
    inst = ctx.instance()
    hit = []

    def costs(I, f, env, st, node):
        hit.append(1)
        return I.box(SC if kind_ else SC, st)
    I.stubs['Evaluator.get_all_single_scenario_costs'] = costs
    o = ctx.new('Initializer', inst, ctx.new('PartitionChanceKnapInstance', inst))
    del I.trace[:]
    r = ctx.fz(ctx.call(o, 'create_first_partition', KK, partition_type=const(kind_)))
    c2 = Ctx(prog)
    c2.instance()
    if kind_ == 'random':
        v, _ = spec(c2, 'refine', 'random_partition', N, KK)
    else:
        v, _ = spec(c2, 'refine', 'cost_partition', SC, N, KK)
    v = c2.fz(v)
    return ctx, r, v, hit


def init_gens():
    def n(ev):
        return SHAPE[0] if SHAPE else ev.rng('N').randint(1, 9)

    def costs(ev):
        r = ev.rng('scost')
        return tuple(F(x) for x in r.sample(range(100), n(ev)))
    return {N: n, KK: lambda ev: ev.rng('K').randint(1, n(ev)), SC: costs}


def init_claims(ev, v):
    n, k = int(ev.ev(N, {})), int(ev.ev(KK, {}))
    p = [[int(s) for s in x] for x in ev.seq(v[0])]
    x = integrity(n, p)
    if x is not True:
        return x
    if len(p) != k:
        return '%d subsets instead of %d' % (len(p), k)
    return True


def init_even(ev, v):
    n, k = int(ev.ev(N, {})), int(ev.ev(KK, {}))
    z = sorted(len(x) for x in ev.seq(v[0]))
    return z[-1] - z[0] <= 1 or 'subset sizes %s of %d scenarios' % (z, n)


def init_deal(ev, v):
    """the k most expensive scenarios lie in k different subsets, then the next k, ..."""
    n, k = int(ev.ev(N, {})), int(ev.ev(KK, {}))
    c = ev.ev(SC, {})
    p = [[int(s) for s in x] for x in ev.seq(v[0])]
    order = sorted(range(n), key=lambda s: -c[s])
    for i in range(0, n, k):
        w = [j for s in order[i:i + k] for j in range(len(p)) if s in p[j]]
        if len(set(w)) != len(w):
            return 'scenarios %s (costs %s) share a subset of %s' % (
                order[i:i + k], [str(c[s]) for s in order[i:i + k]], p)
    return True


@rule('C09', 'initial-partition')
def c09c(rep):
    site = fsite(rep.prog, 'Initializer', 'create_first_partition')
    for kd in ('random', 'cost'):
        ctx, r, v, hit = init_run(rep.prog, kd)
        rep.use(ctx)
        cl = [('initial %s partition: every scenario once, no empty subset' % kd, init_claims),
              ('initial %s partition: sizes differ by at most one' % kd, init_even)]
        if kd == 'cost':
            cl.append(('initial cost partition: dealt out by decreasing cost', init_deal))
            if not hit:
                for nm, _ in cl:
                    rep.und(nm, site, 'single-scenario costs are not read from the evaluator')
                continue
        rep.claims(tm.nokind(r) is tm.nokind(v), [r], cl, site, ctx.I.trace,
                   'initial %s partition: no error' % kd, gen=init_gens())


# ---------------------------------------------------------------------------- merging
GRP = sym('group', ('L', 'int'), (sym('G', 'int'),))
NG = GRP.a[2][0]
MU = sym('mu', 'int')
if not SHAPE:
    tm.POS |= {NG, MU}


def merge_gens():
    g = {GRP: lambda ev: _grp(ev)[0], NG: lambda ev: len(_grp(ev)[0]), MU: lambda ev: _grp(ev)[1]}
    if not SHAPE:
        g[N] = lambda ev: ev.rng('N').randint(2, 8)
        g[L] = lambda ev: ev.rng('L').randint(2, int(ev.ev(N, {})))
    g[AA] = _rows
    g[XX] = lambda ev: tuple(ev.rng('xx', i).choice((F(0), F(1, 2), F(1)))
                             for i in range(int(ev.ev(NV, {}))))
    g[BB] = _slack
    return g


def _slack(ev):
    """the solution satisfies every row, by very different amounts."""
    r = ev.rng('slack')
    x = ev.ev(XX, {})
    return tuple(tuple(sum(a*y for a, y in zip(row, x)) + F(r.randint(0, 40), 8) for row in mat)
                 for mat in ev.ev(AA, {}))


def _rows(ev):
    """rows of very different norms, some of them zero."""
    r = ev.rng('rows')
    n, m, v = [int(ev.ev(x, {})) for x in (N, M, NV)]
    out = []
    for _ in range(n):
        mat = []
        sc0 = r.choice((F(1, 16), F(1, 4), F(1), F(9)))
        for _ in range(m):
            sc = sc0 if r.random() < 0.9 else F(0)
            mat.append(tuple(sc*r.randint(0, 8) for _ in range(v)))
        out.append(tuple(mat))
    return tuple(out)


def _grp(ev):
    l = int(ev.ev(L, {}))
    r = ev.rng('grp')
    k = r.randint(2, l)
    return tuple(r.sample(range(l), k)), r.randint(1, k - 1)


def merged_ok(old, group, part, n, target, deleted):
    """None or a message."""
    low = min(group)
    want = []
    for c, p in enumerate(old):
        if c == low:
            want.append(sorted(s for g in group for s in old[g]))
        elif c not in group:
            want.append(sorted(p))
    got = [sorted(int(s) for s in p) for p in part]
    if got != want:
        return 'merging %s of %s gives %s' % (group, old, got)
    if int(n) != len(want):
        return 'number of subsets %s reported for %s' % (n, want)
    if sorted(target) != [low] or sorted(deleted) != sorted(set(group) - {low}):
        return 'merging %s reports target %s and deleted %s' % (group, target, deleted)
    return None


def old_part(ev):
    return [[int(s) for s in p] for p in ev.ev(PART, {})]


def merger(ctx):
    inst = ctx.instance()
    p = ctx.new('PartitionChanceKnapInstance', inst)
    ctx.call(p, 'load_partition', L, ctx.box(PART))
    m = ctx.new('Merger', inst, p)
    del ctx.I.trace[:]
    return m


def merge_result(ctx, m, r):
    r = ctx.fz(r)
    tg, dl = ctx.field(m, 'target_subsets'), ctx.field(m, 'deleted_subsets')
    if r.op != 'lit' or len(r.a) != 3 or tg is None or dl is None:
        return None
    return [idx(r, num(0)), idx(r, num(1)), ctx.fz(tg), ctx.fz(dl)]


@rule('C09', 'merge')
def c09d(rep):
    site = fsite(rep.prog, 'Merger', 'merge_all')
    ctx = Ctx(rep.prog)
    m = merger(ctx)
    out = merge_result(ctx, m, ctx.call(m, 'merge_all', ctx.box(PART), ctx.box(GRP)))
    rep.use(ctx)
    nm = 'merge_all: every scenario once, no empty subset'
    if out is None:
        return rep.und(nm, site, 'result of merge_all not recognised')
    c2 = Ctx(rep.prog)
    v, _ = spec(c2, 'refine', 'merge_all', c2.box(PART), c2.box(GRP))
    ref = [idx(c2.fz(v), num(i)) for i in range(4)]
    proved = all(tm.nokind(a) is tm.nokind(b) for a, b in zip(out, ref))

    def ok(ev, v):
        return integrity(int(ev.ev(N, {})), [[int(s) for s in p] for p in ev.seq(v[0])])
    rep.claims(proved, out, [(nm, ok)], site, gen=merge_gens())


@rule('C11', 'merge-all')
def c11a(rep):
    site = fsite(rep.prog, 'Merger', 'merge_all')
    ctx = Ctx(rep.prog)
    m = merger(ctx)
    out = merge_result(ctx, m, ctx.call(m, 'merge_all', ctx.box(PART), ctx.box(GRP)))
    rep.use(ctx)
    nm = 'the group is replaced by its union at its smallest position'
    if out is None:
        return rep.und(nm, site, 'result of merge_all not recognised')
    c2 = Ctx(rep.prog)
    v, _ = spec(c2, 'refine', 'merge_all', c2.box(PART), c2.box(GRP))
    ref = [idx(c2.fz(v), num(i)) for i in range(4)]
    proved = all(tm.nokind(a) is tm.nokind(b) for a, b in zip(out, ref))

    def ok(ev, v):
        part, n, tg, dl = v
        g = [int(c) for c in ev.ev(GRP, {})]
        return merged_ok(old_part(ev), g, ev.seq(part), n, [int(c) for c in tg],
                         [int(c) for c in dl]) or True
    rep.claims(proved, out, [(nm, ok)], site, ctx.I.trace, 'merge_all: no error',
               gen=merge_gens())


@rule('C11', 'merge-feasible')
def c11b(rep):
    site = fsite(rep.prog, 'Merger', 'merge_feasible')
    names = ['one more subset than splits, with the largest margins',
             'their union replaces them']
    ctx = Ctx(rep.prog)
    m = merger(ctx)
    x = ctx.box(XX)
    mark = len(ctx.I.trace)
    out = merge_result(ctx, m, ctx.call(m, 'merge_feasible', ctx.box(PART), x, ctx.box(GRP), MU))
    effs = ctx.I.trace[mark:]
    rep.use(ctx)
    if out is None:
        for n in names:
            rep.und(n, site, 'result of merge_feasible not recognised')
        return
    c2 = Ctx(rep.prog)
    i2 = c2.instance()
    p2 = c2.new('PartitionChanceKnapInstance', i2)
    c2.call(p2, 'load_partition', L, c2.box(PART))
    k = kv(L)
    v, _ = spec(c2, 'refine', 'merge_feasible', c2.box(PART), c2.box(XX), c2.box(GRP), MU, p2)
    ref = [idx(c2.fz(v), num(i)) for i in range(4)]
    proved = all(tm.nokind(a) is tm.nokind(b) for a, b in zip(out, ref))
    mg, _ = spec(c2, 'refine', 'margins', c2.box(GRP), p2, c2.box(XX))
    mg = c2.fz(mg)

    def top(ev, v):
        g, mu = [int(c) for c in ev.ev(GRP, {})], int(ev.ev(MU, {}))
        mar = dict(zip(g, v[4]))
        sel = set(int(c) for c in v[2]) | set(int(c) for c in v[3])
        if not sel <= set(g) or len(sel) != mu + 1:
            return '%d splits, candidates %s: merges %s' % (mu, g, sorted(sel))
        lo = min(mar[c] for c in sel)
        rest = [c for c in g if c not in sel and mar[c] > lo]
        return not rest or 'merges %s although the margin of %s is larger' % (sorted(sel), rest)

    def union(ev, v):
        sel = set(int(c) for c in v[2]) | set(int(c) for c in v[3])
        if not sel:
            return 'nothing is merged'
        return merged_ok(old_part(ev), sorted(sel), ev.seq(v[0]), v[1], [int(c) for c in v[2]],
                         [int(c) for c in v[3]]) or True
    rep.claims(proved, out + [mg], [(names[0], top), (names[1], union)], site, effs,
               'merge_feasible: no error', gen=merge_gens())


# ------------------------------------------------------------ what the solver merges
def loop_gens():
    """refined partition, its costs and the reported subsets, consistent with each other."""
    def sz(ev):
        return ev.rng('ref-sz').randint(2, 6)

    def feas(ev, a):
        r = ev.rng('ref-feas')
        return tuple(r.sample(range(sz(ev)), r.randint(1, sz(ev) - 1)))
    return {'refiner.new_subsets': lambda ev, a: (ev.rng('ref-new').randrange(sz(ev) - 1),
                                                  sz(ev) - 1),
            'refined': lambda ev, a: tuple((i,) for i in range(sz(ev))),
            'refiner.feasible_subsets': feas,
            'refiner.mu': lambda ev, a: ev.rng('ref-mu').randint(1, len(feas(ev, a)))}


def old_costs(ev):
    r = ev.rng('old-costs')
    return tuple(F(x, 4) for x in r.sample(range(200), ev.rng('ref-sz').randint(2, 6) - 1))


@rule('C11', 'decision')
def c11c(rep):
    from . import adaptive as ad
    site = fsite(rep.prog, 'AdaptivePartitioner', 'solve')
    ctx, s, lp = ad.loop_of(rep, 'C11')
    names = ['merges only when merging is switched on',
             'merges only when the split subsets cost at most the upper bound',
             'all satisfied subsets are merged with the costliest violated one',
             'a selection of satisfied subsets only when there are more than splits',
             'selection uses the refined partition, the last solution and the number of splits']
    if lp is None:
        return
    calls = {e.kind: e for e in ctx.I.trace if e.kind in ('call:merge_all',
                                                             'call:merge_feasible')}
    both = [e for e in ctx.I.trace if e.kind in ('call:merge_all', 'call:merge_feasible')]
    st = lp.l.endst
    always = 'merges whenever the split subsets cost at most the upper bound'
    if st is not None and 'refined' in ctx.seen and not both:
        now = ctx.I.freeze(ctx.I.D(st.heap[s.a[0]][2].get('partition') or NONE, st), st)
        rep.holds(always, False if tm.nokind(now) is tm.nokind(ctx.seen['refined'][0]) else None, site,
                  'the next iteration starts with the partition as it was split; no merge '
                  'operation is ever called')
    if len(both) != 2 or len(calls) != 2 or st is None or 'refined' not in ctx.seen:
        for n in names:
            rep.und(n, site, 'merge operations are not called once each')
        return
    part, snap = ctx.seen['refined']
    feas, mu = calls['call:merge_feasible'].args[2:4]
    pre = ctx.seen['merged_all.pre']
    ev_ = ctx.field(s, 'evaluator')
    cheap, _ = spec(ctx, 'refine', 'cheap', snap['new_subsets'], part, ev_, pre['vUB'])
    cheap = ctx.fz(cheap)
    fsub = [x for x in ad.apps(calls['call:merge_feasible'].args[2], 'refiner.feasible_subsets')]
    fsub = fsub[0] if fsub else None
    mus = ad.apps(calls['call:merge_feasible'].args[3], 'refiner.mu')

    def implies(name, e, *cs):
        c = conj(*cs)
        h = conj(e.g, nt(c))
        if h is FALSE:
            return rep.ok(name, rep.loc(e.site))
        with evalt.joint({x: old_costs for x in h.fv if typ(x) == ('L', 'num')}, loop_gens()):
            w = evalt.witness(lambda i: evalt.Pair(h, FALSE, i), 25, base=6000, directed=1)
        rep.add(name, 'bad' if isinstance(w, str) else 'undecided', rep.loc(e.site),
                'merging is reached without: ' + tm.show(c, 5))
    for k_, e in sorted(calls.items()):
        implies('%s %s' % (names[0], k_[5:]), e, sym('merge', 'bool'))
        implies('%s %s' % (names[1], k_[5:]), e, cheap)
    none = conj(st.g, sym('merge', 'bool'), cheap, nt(calls['call:merge_all'].g),
                nt(calls['call:merge_feasible'].g))
    if mus and fsub is not None:
        none = [conj(none, c) for c in (eq(mus[0], length(fsub)), lt(mus[0], length(fsub)))]
        none = FALSE if none == [FALSE, FALSE] else disj(*none)
    if none is FALSE:
        rep.ok(always, site)
    else:
        with evalt.joint({x: old_costs for x in none.fv if typ(x) == ('L', 'num')},
                         loop_gens()):
            w = evalt.witness(lambda i: evalt.Pair(none, FALSE, i), 25, base=6000, directed=1)
        rep.add(always, 'bad' if isinstance(w, str) and not any(
            x.op == 'unk' for x in tm.walk(none)) else 'undecided', site,
                'an iteration ends without a merge although merging is switched on and no split '
                'subset costs more than the upper bound: ' + str(w)[:200])
    e = calls['call:merge_all']
    if fsub is None or not mus:
        for n in names[2:]:
            rep.und(n, site, 'satisfied subsets are not those of the refiner')
        return
    grp, _ = spec(ctx, 'refine', 'with_costliest', fsub, pre['subset_costs'],
                  length(part))
    grp = tm.nokind(ctx.fz(grp))

    def group_ok(ev, v):
        g, got, fs, costs = v
        if g is not True:
            raise Unk('not reached')
        got, fs = [int(c) for c in got], [int(c) for c in fs]
        rest = [c for c in got if c not in fs]
        if sorted(got) != sorted(set(got)) or not set(fs) <= set(got) or len(rest) != 1:
            return 'merges %s, satisfied are %s' % (got, fs)
        top = max(costs[c] for c in range(len(costs)) if c not in fs)
        return costs[rest[0]] == top or 'merges %s, satisfied are %s, costs %s' % (
            got, fs, [str(c) for c in costs])
    rep.claims(tm.nokind(e.args[1]) is grp, [TRUE, e.args[1], fsub, pre['subset_costs']],
               [(names[2], group_ok)], rep.loc(e.site), app=loop_gens(),
               gen={x: old_costs for x in pre['subset_costs'].fv if typ(x) == ('L', 'num')})
    implies('merging all satisfied subsets leaves the size unchanged', e,
            eq(length(fsub), mus[0]))
    e = calls['call:merge_feasible']
    implies(names[3], e, lt(mus[0], length(fsub)))
    xsub = ctx.I.freeze(st.heap[s.a[0]][2].get('xUB') or NONE, st)
    rf = [x for x in ctx.I.trace if x.kind == 'call:refine']
    okargs = e.args[0] is part and e.args[2] is fsub and e.args[3] is mus[0] and \
        len(rf) == 1 and e.args[1] is rf[0].args[1] and calls['call:merge_all'].args[0] is part
    rep.holds(names[4], okargs or None, rep.loc(e.site))
