"""C21: remembered splits are the splits of the subset they are used for."""
import ast
from .common import *
from .adaptive import bool3
from ..interp import Dead

SETL = ('L', 'int')
INT4 = ('L', ('L', 'int'))
P1, P2 = sym('P1', INT4, (num(4),)), sym('P2', INT4, (num(4),))
I1, I2 = sym('V1', SETL), sym('V2', SETL)
C1, C2 = sym('subset1', 'int'), sym('subset2', 'int')
OUT = (('post_split_costs', 'acc.cost', 'num'), ('left_subsets', 'acc.left', SETL),
       ('right_subsets', 'acc.right', SETL))
METHOD = '_evaluate_single_accurate_split'


def _parts(ev, tag):
    """four disjoint subsets; both partitions often share subsets."""
    r = ev.rng('parts' if ev.rng('same').random() < 0.6 else tag)
    xs = list(range(9))
    r.shuffle(xs)
    p = [xs[:3], xs[3:5], xs[5:7], xs[7:]]
    q = ev.rng(tag + 'order')
    if q.random() < 0.4:
        i, j = q.sample(range(4), 2)
        p[i].append(p[j].pop())
    if q.random() < 0.5:
        for s in p:
            q.shuffle(s)
    return tuple(tuple(s) for s in p)


def _viol(ev, tag):
    r = ev.rng('viol' if ev.rng('same infeasible').random() < 0.3 else tag)
    return tuple(sorted(r.sample(range(9), r.randint(3, 8))))


GENS = {P1: lambda ev: _parts(ev, 'P1'), P2: lambda ev: _parts(ev, 'P2'),
        I1: lambda ev: _viol(ev, 'I1'), I2: lambda ev: _viol(ev, 'I2'),
        C1: lambda ev: ev.rng('c1').randint(0, 3),
        C2: lambda ev: ev.rng('c1' if ev.rng('same c').random() < 0.7 else 'c2').randint(0, 3)}


def _acc(which):
    def f(ev, args):
        a, b = [frozenset(ev.seq(x)) for x in args[:2]]
        r = ev.rng('acc', which, tuple(sorted(a)), tuple(sorted(b)))
        if which == 'cost':
            return r.randint(-10**6, 10**6)
        return tuple(sorted(x for x in a if r.random() < 0.5))
    return f


APPS = {'setof': lambda ev, args: frozenset(ev.seq(args[0])), 'acc.cost': _acc('cost'), 'acc.left': _acc('left'), 'acc.right': _acc('right')}


def setof(t):
    return app('setof', ('S', 'int'), tm.nokind(t))


def model(I, f, env, st, node):
    a, b = [tm.nokind(I.freeze(I.seq(env[x], st), st)) for x in
            [y.arg for y in f.node.args.args if y.arg != 'self'][:2]]
    sa, sb = setof(a), setof(b)
    I.eff('call:split', (a, b), st, node)
    return lit('U', app('acc.cost', 'num', sa, sb), I.box(app('acc.left', SETL, sa, sb), st),
               I.box(app('acc.right', SETL, sa, sb), st))


def refiner(rep):
    ctx = Ctx(rep.prog)
    inst = ctx.instance()
    c = cls(rep.prog, 'CostRefiner')
    if rep.prog.method(c, METHOD) is None or rep.prog.method(c, 'accurate_obj_split') is None:
        return None
    f = rep.prog.method(c, 'accurate_obj_split')
    ctx.I.stubs[f.qual] = model
    return ctx, inst, ctx.new('CostRefiner', inst, use_acc_obj=TRUE)


def setup(ctx, r, p, inf):
    ctx.setfield(r, 'partition', p if p.op == 'ref' else ctx.box(p))
    ctx.setfield(r, 'infeasible_scenarios', ctx.box(inf))
    for f, _, _ in OUT:
        ctx.setfield(r, f, ctx.box(lit('D')))
    ctx.setfield(r, 'count', num(0))


def wanted(p, inf, c):
    sub = idx(p, c)
    k = kv(length(sub), 'k')
    fa = tm.ftab('L', length(sub), k, tm.mem(idx(sub, k), inf), idx(sub, k))
    return sub, fa


def same(t, name, ty, a, b):
    """True: t is the answer of the model for (a, b); None: unknown; False: it is not."""
    res = True
    for g, x in tm.leafs(t, TRUE):
        if g is FALSE:
            continue
        while x.op == 'sort' or x.op == 'app' and x.a[0] == 'sort':
            x = x.a[0] if x.op == 'sort' else x.a[2]         # the same scenarios
        if not (x.op == 'app' and x.a[0] == name):
            return None
        a1, b1 = [y.a[2] if y.op == 'app' and y.a[0] == 'setof' else None for y in x.a[2:4]]
        if a1 is None or b1 is None:
            return None
        for u, w in ((a1, a), (b1, b)):
            if u is w or canonical(u) is canonical(w):
                continue
            ways = [eq(askind_('S', u), askind_('S', w)), eq(u, w),
                    eq(askind_('L', u), askind_('L', w))]
            if not any(conj(g, nt(e)) is FALSE for e in ways):
                res = None
    return res


def askind_(kd, t):
    from ..lib import askind
    try:
        return askind(kd, t)
    except Exception:
        return t


def canonical(t):
    return tm.nokind(t)


@rule('C21', 'remembered-split')
def c21_memory(rep):
    """first use, use after another use of the memory with any subset and violated scenarios."""
    site = fsite(rep.prog, 'CostRefiner', METHOD)
    b = refiner(rep)
    if b is None:
        return rep.und('remembered-split', site, 'CostRefiner.%s not found' % METHOD)
    ctx, inst, r = b
    I = ctx.I
    hist = (('first', P1, I1, C1), ('later', P2, I2, C2), ('again', P1, I1, C1))
    for tag, p, inf, c in hist:
        setup(ctx, r, p, inf)
        _, eff = take(ctx, lambda: ctx.call(r, METHOD, c))
        rep.sites += len(eff)
        sub, fa = wanted(p, inf, c)
        for f, name, ty in OUT:
            d = I.D(ctx.field(r, f), ctx.st) if ctx.field(r, f) is not None else None
            if d is None:
                rep.und('%s-%s' % (tag, f), site)
                continue
            v = tm.nokind(ctx.fz(idx(d, c)))
            want = app(name, ty, setof(sub), setof(fa))
            ok = same(v, name, ty, sub, fa)

            def pred(ev, vals, f=f):
                x, y = vals
                if isinstance(y, (tuple, list)):
                    x, y = sorted(x), sorted(y)
                if x == y:
                    return True
                return 'the split used for a subset is not the one of this subset with its ' \
                       'violated scenarios (%s: %s instead of %s)' % (f, x, y)
            rep.claims(ok is True, [v, want], [('%s-%s' % (tag, f), pred)], site, gen=GENS,
                       app=APPS)
        if tag == 'first':
            calls = [e for e in eff if e.kind == 'call:split']
            if len(calls) == 1:
                rep.eq('model-of-the-subset', calls[0].args[0], sub, calls[0].site)
                v, want = [setof(x) for x in (calls[0].args[1], fa)]
                ok = v is want

                def pred2(ev, vals):
                    return True if sorted(set(vals[0])) == sorted(set(vals[1])) else \
                        'the violated scenarios %s given to the model are not those of the ' \
                        'subset, %s' % (vals[0], vals[1])
                rep.claims(ok, [tm.nokind(calls[0].args[1]), fa],
                           [('model-of-the-violated-scenarios', pred2)], calls[0].site,
                           gen=GENS, app=APPS)
            else:
                rep.und('model-of-the-subset', site)
    rep.use(ctx)


@rule('C21', 'remembered-lists')
def c21_lists(rep):
    """the lists in the memory keep their contents when the partition holding them changes."""
    site = fsite(rep.prog, 'CostRefiner', METHOD)
    steps = ('merge_all', 'merge', 'merge_feasible', 'split', 'refinement', 'subset cost',
             'split model', 'loaded partition')
    for step in steps:
        b = refiner(rep)
        if b is None:
            return rep.und('remembered-lists', site, 'CostRefiner.%s not found' % METHOD)
        ctx, inst, r = b
        I = ctx.I
        setup(ctx, r, P1, I1)
        take(ctx, lambda: ctx.call(r, METHOD, C1))
        vals = []
        for f in ('left_subsets', 'right_subsets'):
            fv = ctx.field(r, f)
            vals.append(idx(I.D(fv, ctx.st), C1) if fv is not None else None)
        if None in vals:
            return rep.und('remembered-lists', site)
        refs = vals + [ctx.box(sym('S2', SETL)), ctx.box(sym('S3', SETL))]
        refs = [x if x.op == 'ref' else ctx.box(x) for x in refs]
        p = ctx.box(lit('L', *refs))
        mark = len(I.notes)
        try:
            where = run_step(rep, ctx, inst, r, step, p, refs)
        except (Dead, KeyError, AttributeError):
            rep.und('%s-keeps-remembered-lists' % step.replace(' ', '-'), site,
                    'the step could not be followed')
            continue
        if where is None:
            rep.und('%s-keeps-remembered-lists' % step.replace(' ', '-'), site)
            continue
        lost = len(I.notes) > mark
        setup(ctx, r, P1, I1)
        take(ctx, lambda: ctx.call(r, METHOD, C1))
        sub, fa = wanted(P1, I1, C1)
        for f, name, ty in OUT:
            v = tm.nokind(ctx.fz(idx(I.D(ctx.field(r, f), ctx.st), C1)))
            want = app(name, ty, setof(sub), setof(fa))
            ok = same(v, name, ty, sub, fa)
            rep.sites += 1
            rep.holds('%s-keeps-remembered-lists' % step.replace(' ', '-'),
                      True if ok and not lost else bool3(False, v) if not lost else None, where,
                      'the remembered %s of a subset change with the partition: %s' % (
                          f, tm.show(v, 4)))
        rep.use(ctx)


def run_step(rep, ctx, inst, r, step, p, refs):
    I = ctx.I
    x = sym('x', A1, (NV,))
    if step.startswith('merge'):
        mg = ctx.new('Merger', inst, ctx.partition_instance())
        I.stubs['Merger._single_subset_margin'] = lambda I, f, env, st, node: \
            I.D(env['c'], st)
        args = {'merge_all': [lit('L', num(0), num(2))],
                'merge': [lit('L', num(3), num(1)), lit('L', num(0), num(2))],
                'merge_feasible': [x, lit('L', num(0), num(1), num(2)), num(1)]}[step]
        a2 = [ctx.box(a) if kind(a) == 'L' else a for a in args]
        if step == 'merge_feasible':
            a2 = [x] + a2[1:]
        take(ctx, lambda: ctx.call(mg, step, p, *a2))
        return fsite(rep.prog, 'Merger', step)
    if step == 'split':
        setup(ctx, r, p, I2)
        ctx.setfield(r, 'vUB', num(2))
        ctx.setfield(r, 'mu_counter', num(0))
        for f in ('splitted_subsets', 'new_subsets'):
            ctx.setfield(r, f, ctx.box(lit('L')))
        for (f, _, _), v in zip(OUT, (num(1), refs[0], refs[1])):
            ctx.setfield(r, f, ctx.box(tm.store(lit('D'), num(0), v)))
        take(ctx, lambda: ctx.call(r, '_perform_accurate_split'))
        return fsite(rep.prog, 'CostRefiner', '_perform_accurate_split')
    if step == 'refinement':
        take(ctx, lambda: ctx.call(r, '_initialize_refinement', p, x))
        setup(ctx, r, ctx.field(r, 'partition'), I2)
        take(ctx, lambda: ctx.call(r, '_count_infeasible_scenarios', ctx.field(r, 'partition'),
                                   ctx.field(r, 'infeasible_scenarios')))
        return fsite(rep.prog, 'Refiner', '_initialize_refinement')
    if step == 'subset cost':
        ev = ctx.new('Evaluator', inst)
        take(ctx, lambda: ctx.call(ev, 'subset_cost', refs[0]))
        return fsite(rep.prog, 'Evaluator', 'subset_cost')
    if step == 'split model':
        m = ctx.new('AccObjModel', inst, refs[0], ctx.box(I1))
        take(ctx, lambda: ctx.call(m, 'build'))
        take(ctx, lambda: ctx.call(m, 'get_subsets'))
        return fsite(rep.prog, 'AccObjModel', 'build')
    if step == 'loaded partition':
        o = ctx.partition_instance()
        take(ctx, lambda: ctx.call(o, 'load_partition', num(4), p))
        take(ctx, lambda: ctx.call(o, 'get_matrix_A', num(0)))
        return fsite(rep.prog, 'PartitionChanceKnapInstance', 'load_partition')
    return None


@rule('C21', 'memory-kept-by-refiner')
def c21_writers(rep):
    """nothing but the refiner itself touches its memory."""
    c = cls(rep.prog, 'CostRefiner')
    ctx = Ctx(rep.prog)
    b = refiner(rep)
    if b is None:
        return rep.und('memory-kept', fsite(rep.prog, 'CostRefiner', METHOD))
    ctx, inst, r = b
    names = {k for k, v in ctx.fields(r).items() if kind(tm.nokind(ctx.fz(v))) == 'D' or
             ctx.fz(v).op == 'app' and ctx.fz(v).a[0] == 'dict0'}
    mro = {m for k in rep.prog.mro(c) for m in [k.node]}
    n = 0
    for m in rep.prog.modules.values():
        if not (m.name.startswith('src') or m.name == 'main'):
            continue
        for d in m.tree.body:
            if d in mro:
                continue
            for x in ast.walk(d):
                if isinstance(x, ast.Attribute) and x.attr in names:
                    n += 1
                    rep.und('memory-kept', (m.path, x.lineno, m.name),
                            'the memory of the refiner is used outside of it')
    rep.ok('memory-kept', 'src', 'fields %s' % ', '.join(sorted(names)))
