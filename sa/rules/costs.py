"""C32: costs of scenarios and subsets are optimal values of their own problems."""
from .common import *
from .adaptive import bool3, setf, getf

SETL = ('L', 'int')
S1, S2, S3 = sym('first_subset', SETL), sym('later_subset', SETL), sym('third_subset', SETL)
SC = sym('one_scenario', 'int')
PARTS = sym('some_partition', ('L', SETL))
CUTS = {'TimeLimit', 'SolutionLimit', 'NodeLimit', 'IterationLimit', 'BarIterLimit', 'WorkLimit',
        'BestObjStop', 'BestBdStop', 'Cutoff', 'MIPGapAbs'}


def _list(tag):
    """subsets that are easily taken for one another: rearranged, extended, or of the same size,
    smallest and largest scenario and sum."""
    def g(ev):
        b = ev.rng('base')
        mode = b.randrange(5)
        q = ev.rng(tag)
        if mode < 2:
            lo, m, d = b.randint(0, 2), b.randint(4, 7), b.sample((0, 1, 2), 2)
            x = d[q.random() < 0.5]
            out = ([lo] if mode else []) + [m - x, m + x + 1] + ([b.randint(11, 12)] if mode else [])
            if q.random() < 0.2:
                q.shuffle(out)
            return tuple(out)
        base = b.sample(range(10), 3)
        k = q.random()
        if k < 0.25:
            out = list(base)
            q.shuffle(out)
        elif k < 0.5:
            out = base[:2]
        elif k < 0.6:
            out = [base[0], (base[1] + 1) % 10, base[2]]
        else:
            out = q.sample(range(10), q.randint(1, 4))
        return tuple(out)
    return g


GENS = {S1: _list('S1'), S2: _list('S2'), S3: _list('S3'),
        SC: lambda ev: ev.rng('one').randint(0, 6),
        PARTS: lambda ev: tuple(_list('p%d' % i)(ev) for i in range(ev.rng('np').randint(1, 5)))}


def _val(ev, args):
    s = frozenset(ev.seq(args[0]))
    return ev.rng('opt', tuple(sorted(s))).randint(-10**6, 10**6)


def _sol(ev, args):
    s = frozenset(ev.seq(args[0]))
    r = ev.rng('sol', tuple(sorted(s)))
    return tuple(r.randint(0, 10**6) for _ in range(3))


APPS = {'id': lambda ev, args: 5*10**6 + hash(args[0]) % 10**6, 'setof': lambda ev, args: frozenset(ev.seq(args[0])), 'opt.val': _val, 'opt.sol': _sol,
        'pylist': lambda ev, args: tuple(ev.seq(args[0]))}


def setof(t):
    t = tm.nokind(t)
    if t.op in ('sort',):
        t = t.a[0]
    return app('setof', ('S', 'int'), t)


def value(t):
    return app('opt.val', 'num', setof(t))


def solution(t):
    return app('opt.sol', A1, setof(t))


def stubs(ctx):
    """a deterministic model is the set of scenarios it holds; solving it gives its optimum."""
    I = ctx.I

    def aslist(I, x, st):
        x = I.D(x, st)
        if kind(x) in ('L', 'A', 'S') or x.op == 'lit':
            return I.freeze(I.seq(x, st), st)
        return lit('L', I.freeze(x, st))

    def arg(env):
        return [v for k_, v in env.items() if k_ not in ('self', 'verbose')][0]

    def put(I, env, st, fresh_):
        me = env['self']
        new = aslist(I, arg(env), st)
        old = getf(st, me, '_held')
        if old is not None:
            old = I.freeze(I.D(old, st), st)
            new = unk('scenarios added twice')
        fl = dict(st.heap[me.a[0]][2])
        fl['_held'] = new
        fl.pop('_solved', None)
        st.heap[me.a[0]] = ('obj', st.heap[me.a[0]][1], fl)

    def build(I, f, env, st, node):
        put(I, env, st, True)
        return NONE

    def remove(I, f, env, st, node):
        setf(I, st, env['self'], '_held', unk('scenarios removed'))
        return NONE

    def solve(I, f, env, st, node):
        me = env['self']
        h = getf(st, me, '_held')
        m = getf(st, me, 'grb_model')
        mid = st.heap[m.a[0]][2].get('$id') if m is not None and m.op == 'ref' else None
        I.eff('call:solve', (mid if mid is not None else unk('model'),), st, node)
        fl = dict(st.heap[me.a[0]][2])
        fl['_solved'] = h if h is not None else lit('L')
        st.heap[me.a[0]] = ('obj', st.heap[me.a[0]][1], fl)
        return NONE

    def result(fn):
        def h(I, f, env, st, node):
            s = getf(st, env['self'], '_solved')
            if s is None:
                return app('unsolved', 'num')
            v = fn(I.freeze(I.D(s, st), st))
            return I.box(v, st) if kind(v) else v
        return h
    for c in ('DeterModel', 'OptiModel'):
        for nm, h in (('build', build), ('add', build), ('remove', remove), ('solve', solve),
                      ('get_obj_val', result(value)), ('get_obj_bnd', result(value)),
                      ('get_var_x_val', result(solution))):
            k_ = rep_cls(ctx, c)
            if k_ is not None and nm in k_.methods:
                I.stubs['%s.%s' % (c, nm)] = h


def rep_cls(ctx, name):
    return ctx.I.prog.find_class(name)


def evaluator(rep):
    ctx = Ctx(rep.prog)
    inst = ctx.instance()
    stubs(ctx)
    return ctx, inst, ctx.new('Evaluator', inst)


def agree(what):
    def pred(ev, vals):
        return True if vals[0] == vals[1] else '%s: %s instead of %s' % (what, vals[0], vals[1])
    return pred


def exact(rep, name, eff, site):
    """every solve comes after a gap of at most 1e-6, and nothing else may stop it early."""
    sol = [(i, e) for i, e in enumerate(eff) if e.kind == 'call:solve']
    rep.sites += len(sol)
    for i, e in sol:
        par = [p for p in eff[:i] if p.kind in ('param', 'setattr') and len(p.args) > 2 and
               p.args[0] is e.args[0] and p.args[1].op == 's']
        gap = [p for p in par if p.args[1].a[0] == 'MIPGap']
        if not gap:
            rep.bad(name + '-solved-to-optimality', rep.loc(e.site),
                    'the cost is computed with the default relative gap of 1e-4: it is not the '
                    'optimal value, nor an upper bound')
            continue
        v, g = tm.nokind(gap[-1].args[2]), tm.restrict(gap[-1].g, e.g)
        rep.holds(name + '-gap-always-set', bool3(g is TRUE, g), gap[-1].site,
                  'the gap is set only if %s' % tm.show(g))
        rep.holds(name + '-solved-to-optimality', v.a[0] <= tm.Fraction('1e-6') if v.op == 'n'
                  else None, gap[-1].site, 'the cost is computed to a relative gap of %s: it is '
                  'not the optimal value, nor an upper bound' % tm.show(v))
        cut = [p for p in par if p.args[1].a[0] in CUTS]
        rep.holds(name + '-not-cut-short', not cut, cut[0].site if cut else site,
                  'the solve of a cost is stopped early by %s' % (
                      cut[0].args[1].a[0] if cut else ''))
    return sol


@rule('C06', 'subset-costs-solved-to-optimality')
def c06_gap(rep):
    one_solve(rep)


@rule('C32', 'solved-to-optimality')
def c32_gap(rep):
    one_solve(rep)


def one_solve(rep):
    ctx, inst, ev = evaluator(rep)
    site = fsite(rep.prog, 'Evaluator', 'subset_cost')
    _, eff = take(ctx, lambda: ctx.call(ev, 'subset_cost', ctx.box(S1)))
    if not exact(rep, 'cost', eff, site):
        rep.und('cost-solved-to-optimality', site)
    rep.use(ctx)


@rule('C32', 'single-costs')
def c32_single(rep):
    """a subset, then another one, a single scenario, the first again, and after its object has
    been given another content."""
    ctx, inst, ev = evaluator(rep)
    site = fsite(rep.prog, 'Evaluator', 'subset_cost')
    b1 = ctx.box(S1)
    hist = (('first', b1, S1), ('later', ctx.box(S2), S2), ('single', SC, lit('L', SC)),
            ('again', ctx.box(S1), S1), ('same-object', b1, None))
    for tag, arg, want in hist:
        if want is None:
            ctx.st.heap[b1.a[0]] = ctx.st.heap[ctx.box(S3).a[0]]
            want = S3
        r, eff = take(ctx, lambda: ctx.fz(ctx.call(ev, 'subset_cost', arg)))
        r = tm.nokind(r)
        for i, (nm, w) in enumerate((('cost', value(want)), ('solution', solution(want)))):
            v = tm.nokind(idx(r, num(i)))
            rep.claims(v is tm.nokind(w), [v, w], [('%s-%s' % (tag, nm), agree(
                'the %s of a subset is not that of its own problem' % nm))], site, effs=eff,
                gen=GENS, app=APPS)
    rep.use(ctx)


@rule('C32', 'cost-lists')
def c32_lists(rep):
    ctx, inst, ev = evaluator(rep)
    k = kv(length(S1))
    obs = [('scenario_costs', (ctx.box(S1),), [('cost', tab('L', length(S1), k, value(
        lit('L', idx(S1, k)))))])]
    k = kv(N)
    obs.append(('get_all_single_scenario_costs', (), [('cost', tab('L', N, k, value(
        lit('L', k))))]))
    k = kv(length(PARTS))
    k2 = kv(length(PARTS))
    obs.append(('partition_cost', (ctx.box(PARTS),), [
        ('cost', tab('L', length(PARTS), k, value(idx(PARTS, k)))),
        ('solution', tab('L', length(PARTS), k2, solution(idx(PARTS, k2))))]))
    for nm, args, wants in obs:
        site = fsite(rep.prog, 'Evaluator', nm)
        for tag in ('', 'second-'):
            r, eff = take(ctx, lambda: ctx.fz(ctx.call(ev, nm, *args)))
            r = tm.nokind(r)
            for i, (what, w) in enumerate(wants):
                v = tm.nokind(idx(r, num(i))) if len(wants) > 1 else r
                w = tm.nokind(w)
                rep.claims(v is w, [v, w], [('%s%s-%s-in-order' % (tag, nm, what), agree(
                    'the list of %ss does not follow the elements' % what))], site, effs=eff,
                    gen=GENS, app=APPS)
    rep.use(ctx)
