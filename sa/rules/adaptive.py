"""C06, C07, C08, C12, C24: the adaptive method's main loop."""
import ast
from fractions import Fraction
from .common import *
from ..lib import recorder, fresh

P0 = ('L', ('L', 'int'))


def selfref(st, env):
    return env.get('self')


def setf(I, st, ref, name, v):
    h = st.heap[ref.a[0]]
    fl = dict(h[2])
    if kind(v) in ('L', 'A', 'D') and v.op != 'ref':
        v = I.box(v, st)
    fl[name] = v
    st.heap[ref.a[0]] = ('obj', h[1], fl)


def getf(st, ref, name):
    return st.heap[ref.a[0]][2].get(name)


def stored_attrs(prog, cls):
    """attributes assigned on self outside __init__ (by any method of the class)."""
    out = set()
    for c in prog.mro(cls):
        for nm, f in c.methods.items():
            if nm == '__init__':
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and \
                        x.value.id == 'self' and isinstance(x.ctx, ast.Store):
                    out.add(x.attr)
    return out


TYPES = {'new_subsets': ('L', 'int'), 'feasible_subsets': ('L', 'int'), 'mu': 'int',
         'infeasible_subsets': ('L', 'int'), 'deleted_subsets': ('L', 'int'),
         'target_subsets': ('L', 'int'), 'splitted_subsets': ('L', 'int'),
         'partition': P0, 'old_partition': P0}


def havoc(I, st, ref, tag, keep=()):
    cls = st.heap[ref.a[0]][1]
    for a in sorted(stored_attrs(I.prog, cls)):
        if a not in keep:
            setf(I, st, ref, a, fresh(I, tag + '.' + a, TYPES.get(a, 'any'), st))


def snap(I, st, ref, names):
    return {n: I.freeze(getf(st, ref, n) or tm.unk(n), st) for n in names}


def solver_ctx(prog, big=TRUE, merge=TRUE, init='cost', method='random', acc=FALSE, run=True,
               make=True):
    ctx = Ctx(prog)
    I = ctx.I
    I.opaque_while = True
    ctx.seen = {}

    def result(*types):
        def r(tag):
            def h(I, env, st):
                return lit('U', *[fresh(I, '%s.%d' % (tag, i), t, st)
                                  for i, t in enumerate(types)])
            return h
        return r

    def part(I, tag, st):
        return I.box(fresh(I, tag, P0, st), st)

    def first(I, env, st):
        setf(I, st, env['self'], 'scenario_costs', fresh(I, 'scenario_costs', A1, st))
        p = fresh(I, 'part0', P0, st)
        return I.box(p, st)

    def cost(x):
        return app('cost', 'num', x)

    def sol(x):
        return app('sol', A1, x)

    def subset_cost(I, env, st):
        s = I.freeze(I.D(env[names_of(I, 'Evaluator', 'subset_cost')[0]], st), st)
        return lit('U', cost(s), sol(s))

    def partition_cost(I, env, st):
        p = I.freeze(I.D(env[names_of(I, 'Evaluator', 'partition_cost')[0]], st), st)
        k = kv(length(p))
        return lit('U', I.box(tab('L', length(p), k, cost(idx(p, k))), st),
                   I.box(tab('L', length(p), k, sol(idx(p, k))), st))

    def refine(I, env, st):
        havoc(I, st, env['self'], 'refiner', keep=('vUB', 'subset_costs'))
        p = fresh(I, 'refined', P0, st)
        ctx.seen['refined'] = (p, snap(I, st, env['self'], ('new_subsets',)))
        return lit('U', length(p), I.box(p, st))

    def merged(tag):
        def h(I, env, st):
            havoc(I, st, env['self'], 'merger')
            p = fresh(I, tag, P0, st)
            pre = snap(I, st, ctx.solver, ('subset_costs', 'vUB'))
            ctx.seen[tag] = (p, snap(I, st, env['self'], ('deleted_subsets', 'target_subsets')))
            ctx.seen[tag + '.pre'] = pre
            return lit('U', I.box(p, st), length(p))
        return h

    def load(I, env, st):
        a = names_of(I, 'PartitionChanceKnapInstance', 'load_partition')
        setf(I, st, env['self'], '$n', I.freeze(I.D(env[a[0]], st), st))
        p = I.freeze(I.D(env[a[1]], st), st)
        fl = dict(st.heap[env['self'].a[0]][2])
        fl['$P'] = p
        st.heap[env['self'].a[0]] = ('obj', st.heap[env['self'].a[0]][1], fl)
        return NONE

    def check(I, env, st):
        a = names_of(I, 'ChanceKnapInstance', 'check_feasibility')
        x = I.freeze(I.D(env[a[0]], st), st)
        fl = dict(st.heap[env['self'].a[0]][2])
        fl['$checked'] = x
        st.heap[env['self'].a[0]] = ('obj', st.heap[env['self'].a[0]][1], fl)
        return app('feas', 'bool', x)

    def mask(I, env, st):
        x = getf(st, env['self'], '$checked') or NONE
        return app('feasmask', ('A', 'bool'), x)

    def isfeas(I, env, st):
        a = names_of(I, 'ChanceKnapInstance', 'is_feasible')
        x = I.freeze(I.D(env[a[0]], st), st)
        return lit('U', app('feas', 'bool', x), *[fresh(I, 'isf', 'any', st)] * 4)

    def rec(cls_, nm, r=None):
        I.stubs['%s.%s' % (cls_, nm)] = recorder(nm, r)
    rec('UpperBounder', 'first_iteration_bound', result(A1, A1, 'num', 'num')('first_ub'))
    rec('UpperBounder', 'partition_bound', result('any', A1, 'num', 'num')('part_ub'))
    rec('UpperBounder', 'ahmed_et_al_bound', lambda I, e, st: fresh(I, 'quantile', 'num', st))
    rec('LowerBounder', 'incumbent_bound', result('bool', A1, 'num')('incumbent'))
    rec('LowerBounder', 'deterministic_bound', result(A1, 'num')('projected'))
    rec('LowerBounder', 'save_feasible_scenarios', lambda I, e, st: NONE)
    for c in ('Refiner', 'RandomRefiner', 'CostRefiner'):
        rec(c, 'refine', refine)
    rec('Merger', 'merge_all', merged("merged_all"))
    rec('Merger', 'merge_feasible', merged("merged_top"))
    rec('Evaluator', 'subset_cost', subset_cost)
    rec('Evaluator', 'partition_cost', partition_cost)
    rec('PartitionChanceKnapInstance', 'load_partition', load)
    rec('Initializer', 'create_first_partition', first)
    rec('TimeManager', 'get_remaining_time', lambda I, e, st: fresh(I, 'time_left', 'num', st))
    rec('Informer', 'store_iteration_info', lambda I, e, st: NONE)
    rec('Informer', 'print_iter_info', lambda I, e, st: NONE)
    I.recorded = ('update_big_M',)
    I.methtypes = {'update_big_M': 'any'}
    inst = ctx.instance()
    rec('ChanceKnapInstance', 'check_feasibility', check)
    rec('ChanceKnapInstance', 'get_feasible_scenarios', mask)
    rec('ChanceKnapInstance', 'is_feasible', isfeas)
    if not make:
        return ctx, None
    s = ctx.new('AdaptivePartitioner', inst, split_method=const(method),
                initial_partition_type=const(init), use_acc_obj=acc,
                time_limit=sym('T', 'num'), gap=sym('gap', 'num'))
    ctx.solver = s
    ctx.finder = sym('finder', ('obj', 'BigMFinder'))
    if run:
        ctx.mark = len(I.trace)
        ctx.call(s, 'solve', ctx.finder, use_big_M=big, big_m_method=sym('mmethod', 'str'),
                 use_merger=merge, use_lazy=sym('lazy', 'bool'))
    return ctx, s


def names_of(I, cls_, m):
    f = I.prog.method(I.prog.find_class(cls_), m)
    return [a.arg for a in f.node.args.args if a.arg != 'self']


# ------------------------------------------------------------------ views of the main loop
def joint(ctx, st, obj, names):
    h = st.heap[obj.a[0]][2]
    vs = []
    for nm in names:
        v = h.get(nm)
        if v is None:
            return None
        vs.append(tm.nokind(ctx.I.freeze(v, st)))
    return vs


def pairs(vs, g):
    """[(guard, leaf values)] of several conditional values taken together."""
    memo = {}

    def merge(c, hi, lo):
        r = {}
        for k_ in list(hi) + [k for k in lo if k not in hi]:
            r[k_] = ite(c, hi.get(k_, FALSE), lo.get(k_, FALSE))
        return r

    def rec(vs):
        r = memo.get(vs)
        if r is not None:
            return r
        top = None
        for v in vs:
            if v.op == 'ite' and (top is None or v.a[0].id < top.id):
                top = v.a[0]
        if top is not None:
            r = merge(top, rec(tuple(tm.cofd(v, top, True) for v in vs)),
                      rec(tuple(tm.cofd(v, top, False) for v in vs)))
        else:
            for i, v in enumerate(vs):
                if v.op in ('max', 'min') and len(v.a) >= 2:
                    x = v.a[0]
                    y = (tm.tmax if v.op == 'max' else tm.tmin)(*v.a[1:])
                    c = le(x, y)
                    if c.op == 'b':
                        continue
                    big, small = (y, x) if v.op == 'max' else (x, y)
                    r = merge(c, rec(vs[:i] + (big,) + vs[i + 1:]),
                              rec(vs[:i] + (small,) + vs[i + 1:]))
                    break
            else:
                r = {vs: TRUE}
        memo[vs] = r
        return r
    out = []
    for k_, h in rec(tuple(vs)).items():
        h = conj(g, h)
        if h is not FALSE:
            out.append((h, k_))
    return out


def apps(t, name):
    return [x for x in tm.walk(t) if x.op == 'app' and x.a[0] == name]


def is_app(t, name):
    return t.op == 'app' and t.a[0] == name


def serial(t):
    return t.a[2:]


class Loop:
    """the main loop of solve, with the states in which an iteration can end."""

    def __init__(self, ctx, s):
        self.ctx, self.s, self.I = ctx, s, ctx.I
        ls = [l for l in ctx.I.loops if l.test is not None and l.head is not None]
        self.l = None
        for l in ls:
            if any(loc[0] == 'obj' and loc[-1] in ('vUB', 'vLB') for loc in l.phis):
                self.l = l
        if self.l is None:
            raise NoLoop()
        l = self.l
        self.phi = {}
        for loc, p in l.phis.items():
            self.phi[loc] = p
        sid = s.a[0]
        self.f = {loc[-1]: p for loc, p in l.phis.items() if loc[0] == 'obj' and loc[1] == sid}
        # loop-carried flags that are never set when an iteration completes
        self.inv = TRUE
        end = l.endst.g if l.endst is not None else FALSE
        for loc, p in l.phis.items():
            if typ(p) == 'bool' and l.init[loc].op == 'b':
                v = l.init[loc]
                x = l.step[loc]
                bad = conj(end, x) if v is FALSE else conj(end, nt(x))
                if bad is FALSE:
                    self.inv = conj(self.inv, p if v is TRUE else nt(p))

    def ends(self):
        """(name, guard, state) of every way an iteration ends."""
        l = self.l
        out = []
        if l.endst is not None:
            out.append(('next iteration', conj(l.endst.g, self.inv), l.endst))
        for i, (g, st) in enumerate(l.exits):
            g = conj(g, self.inv)
            if g is not FALSE:
                out.append(('exit %d' % (i + 1), g, st))
        return out

    def time_ok(self, *ts):
        c = TRUE
        seen = set()
        for t in ts:
            for x in apps(t, 'time_left'):
                if x not in seen:
                    seen.add(x)
                    c = conj(c, lt(num(0), x))
        return c


UNKF = tm.unk('field')


class NoLoop(Exception):
    pass


def loop_site(rep):
    return fsite(rep.prog, 'AdaptivePartitioner', 'solve')


def loop_of(rep, prop, **kw):
    ctx, s = solver_ctx(rep.prog, big=sym('big', 'bool'), merge=sym('merge', 'bool'), **kw)
    rep.use(ctx)
    try:
        return ctx, s, Loop(ctx, s)
    except NoLoop:
        rep.und('main-loop', loop_site(rep), 'no loop that updates the bounds was found')
        return ctx, s, None


def is_stub(t, *names):
    return t.op == 'app' and t.a[0] in names


def below(g, a, b, tol):
    """does g imply a <= b + tol?"""
    return conj(g, lt(add(b, num(tol)), a)) is FALSE


TOL = 2e-6


@rule('C06', 'upper-bound-updates')
def c06(rep):
    ctx, s, lp = loop_of(rep, 'C06')
    if lp is None:
        return
    site = fsite(rep.prog, 'AdaptivePartitioner', '_upper_bound')
    pv, px = lp.f.get('vUB'), lp.f.get('xUB')
    if pv is None:
        return rep.bad('upper-bound-updated', loop_site(rep),
                       'no iteration of the main loop changes the upper bound')
    verdicts = {}

    def put(nm, v, why):
        r = {True: 0, None: 1, False: 2}
        if nm not in verdicts or r[v] > r[verdicts[nm][0]]:
            verdicts[nm] = (v, why)
    minsz = ctx.fz(ctx.field(s, 'minimum_partition_size') or tm.unk('minsz'))
    nb = lp.f.get('nb_subsets')
    states = lp.ends()
    nleaf = 0
    for nm, g, st in states:
        vs = joint(ctx, st, s, ('vUB', 'xUB'))
        for h, (v, x) in pairs(vs, g):
            nleaf += 1
            # (a) value
            if v is pv:
                put('only-proven-bounds', True, '')
            elif is_stub(v, 'first_ub.3', 'part_ub.3') or is_stub(v, 'first_ub.2'):
                put('only-proven-bounds', True, '')
                put('never-increases', bool3(below(h, v, pv, TOL), h),
                    'vUB is replaced by %s without it being at most the current bound' %
                    tm.show(v, 3))
                if v.a[0].startswith('first') and nb is not None:
                    ok = conj(h, lt(minsz, nb)) is FALSE
                    put('largest-subset-cost-only-at-minimum-size', bool3(ok, h),
                        'the largest subset cost replaces the bound although the partition may '
                        'have more than floor(eps*N)+1 subsets')
            else:
                put('only-proven-bounds', None if soft_any(v) else False,
                    '%s: vUB becomes %s' % (nm, tm.show(v, 6)))
            # (b) point
            if x is px or is_stub(x, 'first_ub.0', 'part_ub.0'):
                put('point-of-the-relaxation', True, '')
            else:
                put('point-of-the-relaxation', None if soft_any(x) else False,
                    '%s: xUB becomes %s' % (nm, tm.show(x, 6)))
            # the point moves along with the bound
            if is_stub(v, 'first_ub.3', 'part_ub.3', 'first_ub.2'):
                if is_stub(x, 'first_ub.0', 'part_ub.0'):
                    put('point-follows-the-bound', True, '')
                elif x is px:
                    c = h
                    for a in apps(h, 'part_ub.2') + apps(h, 'first_ub.2'):
                        c = conj(c, le(a, pv))
                    put('point-follows-the-bound', bool3(c is FALSE, c),
                        '%s: vUB moves to %s, the stored point stays the older one' % (
                            nm, tm.show(v, 3)))
    # (c) a better proven bound is kept
    for nm, g, st in states:
        if nm != 'next iteration':
            continue
        vs = joint(ctx, st, s, ('vUB',))
        for h, (v,) in pairs(vs, g):
            if v is not pv:
                continue
            h2 = conj(h, lp.time_ok(h))
            for a in apps(h, 'part_ub.0'):
                h2 = conj(h2, nt(eq(NONE, a)))
            for a in apps(h, 'first_ub.0'):
                h2 = conj(h2, nt(eq(NONE, a)))
            for a in apps(h, 'part_ub.3') + apps(h, 'first_ub.3'):
                h2 = conj(h2, le(a, sub(pv, num(1))))
            if h2 is FALSE:
                put('improvements-kept', True, '')
            elif not (apps(h2, 'part_ub.3') or apps(h2, 'first_ub.3')):
                put('improvements-kept', None if soft_any(h2) else False,
                    'an iteration can end with the old bound although its relaxation was '
                    'solved: %s' % tm.show(h2, 6))
            else:
                put('improvements-kept', bool3(False, h2), tm.show(h2, 6))
    for nm, (v, why) in verdicts.items():
        rep.holds(nm, v, site, why)
    rep.sites += nleaf
    # the relaxation is solved for the current data
    seen = set()
    for e in ctx.I.trace:
        if e.kind == 'call:partition_bound':
            f = rep.prog.method(rep.prog.find_class('UpperBounder'), 'partition_bound')
            arg = dict(zip([a.arg for a in f.node.args.args if a.arg != 'self'], e.args))
            for nm, want in (('use_big_M', sym('big', 'bool')), ('use_lazy', sym('lazy', 'bool')),
                             ('bigMFinder', ctx.finder), ('vLB', lp.f.get('vLB'))):
                if nm in arg and want is not None and (nm, 'x') not in seen:
                    seen.add((nm, 'x'))
                    rep.eq('relaxation-gets-' + nm, arg[nm], want, e.site)
    # initial value: the quantile bound or nothing
    for init in ('cost', 'random'):
        c2, s2 = solver_ctx(rep.prog, init=init, run=False)
        v = c2.fz(c2.field(s2, 'vUB'))
        ok = v is tm.INF
        if init == 'cost':
            ok = ok or is_stub(v, 'quantile')
        rep.holds('initial-upper-bound-' + init, bool3(ok, v),
                  fsite(rep.prog, 'AdaptivePartitioner', '_setup_initial_partition'),
                  'initial upper bound is %s' % tm.show(v))
        for e in c2.I.trace:
            if e.kind == 'call:ahmed_et_al_bound':
                for nm, x, want in (('costs', e.args[0], 'scenario_costs'),):
                    rep.holds('quantile-over-scenario-costs', bool3(is_stub(x, want), x), e.site,
                              'the quantile bound is taken over %s' % tm.show(x))
                rep.eq('quantile-probabilities', tm.nokind(e.args[1]), tm.nokind(PR), e.site)
                rep.eq('quantile-tolerance', e.args[2], EPS, e.site)
        rep.use(c2)


@rule('C07', 'stored-lower-bound-and-point')
def c07_pair(rep):
    ctx, s, lp = loop_of(rep, 'C07')
    if lp is None:
        return
    pv, px = lp.f.get('vLB'), lp.f.get('xLB')
    if pv is None or px is None:
        return rep.und('stored-lower-bound-and-point', loop_site(rep), 'bounds not loop carried')
    worst = [0, '', 0]

    def see(nm, v, why):
        r = {True: 0, None: 1, False: 2}[v]
        worst[2] += 1
        if r > worst[0]:
            worst[0], worst[1] = r, '%s: %s' % (nm, why)
    states = list(lp.ends())
    states.append(('end of solve', conj(ctx.st.g, lp.inv), ctx.st))
    for nm, g, st in states:
        vs = joint(ctx, st, s, ('vLB', 'xLB', 'vUB', 'xUB'))
        if vs is None:
            return rep.und('stored-lower-bound-and-point', loop_site(rep))
        for h, (v, x, vu, xu) in pairs(vs, g):
            w = 'lower bound %s is stored with the point %s' % (tm.show(v, 4), tm.show(x, 4))
            e = pv if x is px else app('incumbent.2', 'num', *x.a[2:]) if is_app(
                x, 'incumbent.1') else app('projected.1', 'num', *x.a[2:]) if is_app(
                x, 'projected.0') else None
            if e is not None and e is not v and conj(h, lt(v, e)) is FALSE and \
                    conj(h, lt(e, v)) is FALSE:
                v = e
            if v is pv and x is px:
                see(nm, True, '')
            elif is_app(v, 'incumbent.2') and is_app(x, 'incumbent.1') and serial(v) == serial(x):
                a = app('incumbent.0', 'bool', *serial(v))
                see(nm, bool3(conj(h, nt(a)) is FALSE, h), w + ' without its acceptance flag')
            elif is_app(v, 'projected.1') and is_app(x, 'projected.0') and \
                    serial(v) == serial(x):
                see(nm, bool3(below(h, pv, v, 1e-6), h), w + ' although it may be worse')
            elif v is vu and (x is xu) and nm == 'end of solve':
                fe = conj(h, *[nt(a) for a in apps(h, 'feas')])
                see(nm, bool3(fe is FALSE, h),
                    'the upper bound becomes the lower bound without a feasible relaxation '
                    'solution')
            else:
                see(nm, None if soft_any(v, x) else False, w)
    rep.sites += worst[2]
    rep.add('stored-lower-bound-and-point', ('ok', 'undecided', 'bad')[worst[0]],
            rep.loc(loop_site(rep)), worst[1])
    # candidates examined by the heuristic are subset solutions
    n = 0
    for e in ctx.I.trace:
        if e.kind == 'call:incumbent_bound':
            f = rep.prog.method(rep.prog.find_class('LowerBounder'), 'incumbent_bound')
            arg = dict(zip([a.arg for a in f.node.args.args if a.arg != 'self'], e.args))
            n += 1
    rep.holds('heuristic-is-used', True if n else None, loop_site(rep), 'no incumbent search')


@rule('C08', 'loop-exits')
def c08(rep):
    ctx, s, lp = loop_of(rep, 'C08')
    if lp is None:
        return
    I = ctx.I
    site = loop_site(rep)
    gap = ctx.fz(ctx.field(s, 'gap') or tm.unk('gap'))
    rep.eq('gap-limit-is-the-requested-one', gap, sym('gap', 'num'), site)
    gap = sym('gap', 'num')

    def gapterm(st):
        st = st.clone()
        st.fr = ctx.st.fr
        st.g = TRUE
        mark = len(I.trace)
        try:
            r = I.freeze(I.call_method(s, '_compute_gap', [], {}, st, None), st)
        finally:
            del I.trace[mark:]
        return r
    l = lp.l
    step = {l.phis[k]: l.step[k] for k in l.phis}
    init = {l.phis[k]: l.init[k] for k in l.phis}
    n = 0
    # exits taken before the iteration has done anything
    heads = [g for i, (g, st) in enumerate(l.exits) if st.g is not None and g is not FALSE and (
        i == 0 and g is nt(l.test) or not any(x.op in ('app', 'unk') for x in tm.walk(g)))]
    goes_on = conj(l.test, *[nt(g) for g in heads])
    for i, (g, st) in enumerate(l.exits):
        cases = [(g, st)]
        if any(g is x for x in heads):
            cases = []
            g0 = subst(g, init)
            if g0 is not FALSE:
                cases.append((g0, None))
            g1 = conj(l.endst.g, subst(g, step)) if l.endst is not None else FALSE
            if g1 is not FALSE:
                cases.append((g1, l.endst))
        for h, t in cases:
            n += 1
            h = conj(h, lp.inv)
            h = conj(h, lp.time_ok(h))
            for a in apps(h, 'feas'):
                h = restrict(conj(h, nt(a)), nt(a))
            if t is not None and h is not FALSE:
                h = conj(h, lt(gap, gapterm(t)))
            rep.holds('exit-%d-justified' % n, bool3(h is FALSE, h), site,
                      'the loop can stop while time is left, the relaxation solution is '
                      'infeasible and the gap exceeds the requested one: %s' % tm.show(h, 8))
    # the loop does stop when it must
    gapexit = False
    for i, (g, st) in enumerate(l.exits):
        h = conj(g, lp.inv)
        h = conj(h, lp.time_ok(h))
        for a in apps(h, 'feas'):
            h = conj(h, nt(a))
        if h is not FALSE and not any(g is x for x in heads):
            gapexit = True
    if l.endst is not None:
        g1 = conj(l.endst.g, subst(g, step), lp.inv) if False else conj(l.endst.g, lp.inv)
        h = conj(g1, subst(goes_on, step))
        h = conj(h, lp.time_ok(h, l.endst.g))
        for nm in ('part_ub.0', 'first_ub.0'):
            for a in apps(h, nm):
                h = conj(h, nt(eq(NONE, a)))
        fe = apps(h, 'feas')
        c = h
        if fe:
            for a in fe:
                c = conj(c, a)
            rep.holds('stops-when-feasible', bool3(c is FALSE, c), site,
                      'the loop can go on although the relaxation solution is feasible')
        else:
            rep.holds('stops-when-feasible', None if soft_any(h) else False, site,
                      'going on does not depend on the feasibility of the relaxation solution')
        # gap: an iteration that completes must not have had the gap closed when tested
        rep.holds('stops-at-the-requested-gap', bool3(gapexit, l.endst.g), site,
                  'no exit of the loop depends on the optimality gap')
    # feasibility is that of the relaxation solution just computed
    okp = True
    for g, st in l.exits + [(l.endst.g, l.endst)] if l.endst is not None else l.exits:
        for a in apps(g, 'feas'):
            for _, x in tm.leafs(a.a[-1], TRUE):
                if not is_stub(x, 'first_ub.0', 'part_ub.0'):
                    okp = None if soft_any(x) else False
    rep.holds('feasibility-of-the-current-solution', okp, site,
              'the feasibility that stops the loop is not that of the relaxation solution')
    # claims after the loop
    vs = joint(ctx, ctx.st, s, ('vLB', 'vUB', 'xLB', 'xUB'))
    w = (0, '')
    for h, (v, vu, x, xu) in pairs(vs, conj(ctx.st.g, lp.inv)):
        fe = apps(h, 'feas')
        infeas = conj(h, *[nt(a) for a in fe])
        if v is vu:
            if infeas is not FALSE:
                r = 1 if soft_any(h) else 2
                w = max(w, (r, 'lower = upper is claimed without a feasible relaxation '
                               'solution'))
    # feasible exit: equality claimed
    for g, st in l.exits:
        h0 = conj(g, lp.inv)
        h0 = conj(h0, lp.time_ok(h0))
        fe = apps(h0, 'feas')
        for a in fe:
            h0 = conj(h0, a)
    rep.add('optimality-claim', ('ok', 'undecided', 'bad')[w[0]], rep.loc(site), w[1])
    feasexit = False
    fin = pairs(vs, conj(ctx.st.g, lp.inv))
    for h, (v, vu, x, xu) in fin:
        for a in apps(h, 'feas'):
            if conj(h, nt(a)) is FALSE:
                feasexit = True
                if v is not vu or x is not xu:
                    rep.holds('feasible-solution-closes-the-gap', None if soft_any(v, vu) else False,
                              site, 'after a feasible relaxation solution the lower bound is %s, '
                              'the upper bound %s' % (tm.show(v, 4), tm.show(vu, 4)))
                    return
    rep.holds('feasible-solution-closes-the-gap', bool3(feasexit, *[h for h, _ in fin]), site,
              'a feasible relaxation solution is not reported as the optimum')


def update_gens(base):
    """a split and a merge whose reported positions fit the partitions they belong to."""
    def sz(ev):
        return ev.rng('upd-sz').randint(2, 6)

    def gone(ev):
        r = ev.rng('upd-gone')
        g = r.sample(range(sz(ev)), r.randint(2, sz(ev)))
        return min(g), tuple(c for c in g if c != min(g))

    def merged(ev, a):
        t, d = gone(ev)
        return tuple((c, 90 + c) for c in range(sz(ev)) if c not in d)
    gen = {tm.nokind(base[0]): lambda ev: tuple(
               Fraction(x, 4) for x in ev.rng('upd-cost').sample(range(200), sz(ev) - 1)),
           tm.nokind(base[1]): lambda ev: tuple(
               (Fraction(x),) for x in ev.rng('upd-sol').sample(range(200), sz(ev) - 1))}
    app_ = {'refiner.new_subsets': lambda ev, a: (ev.rng('upd-new').randrange(sz(ev) - 1),
                                                  sz(ev) - 1),
            'refined': lambda ev, a: tuple((c,) for c in range(sz(ev))),
            'merger.deleted_subsets': lambda ev, a: gone(ev)[1],
            'merger.target_subsets': lambda ev, a: (gone(ev)[0],),
            'merged_all': merged, 'merged_top': merged}
    return gen, app_


@rule('C12', 'loaded-partition')
def c12(rep):
    ctx, s, lp = loop_of(rep, 'C12')
    if lp is None:
        return
    I = ctx.I
    site = loop_site(rep)
    pi = ctx.field(s, 'chance_instance_part')
    if pi is None or pi.op != 'ref':
        return rep.und('loaded-partition', site, 'no partitioned instance')
    states = lp.ends()
    states.append(('end of solve', ctx.st.g, ctx.st))
    c2, s2 = solver_ctx(rep.prog, init='random', run=False)
    states.append(('construction', c2.st.g, c2.st))
    for nm, g, st in states:
        o = s2 if nm == 'construction' else s
        q = c2.field(s2, 'chance_instance_part') if nm == 'construction' else pi
        vs = joint(c2 if nm == 'construction' else ctx, st, o, ('partition', 'nb_subsets'))
        ws = joint(c2 if nm == 'construction' else ctx, st, q, ('$P', '$n'))
        if vs is None or ws is None:
            rep.und('loaded-partition ' + nm, site)
            continue
        bad = None
        for h, (p, n, lp_, ln) in pairs(vs + ws, g):
            fs = (p, n, lp_, ln)
            if p is not lp_ or n is not ln:
                phis = [x for x in fs if x.op == 'var']
                bad = fs
                break
        # loop-carried: the invariant holds for the carried variables by induction
        if bad is not None:
            inv = {}
            p0, n0 = joint(ctx, lp.l.head, s, ('partition', 'nb_subsets'))
            p1, n1 = joint(ctx, lp.l.head, pi, ('$P', '$n'))
            inv = {p1: p0, n1: n0}
            bad = None
            for h, fs in pairs(vs + ws, g):
                p, n, lp_, ln = [subst(x, inv) for x in fs]
                if p is not lp_ or n is not ln:
                    bad = (p, n, lp_, ln)
                    break
        rep.holds('loaded-partition ' + nm, True if bad is None else
                  (None if soft_any(*bad) else False), site,
                  '' if bad is None else 'the solver continues with the partition %s (%s subsets)'
                  ' while the partitioned instance holds %s (%s)' % tuple(
                      tm.show(x, 3) for x in bad))
        # number of subsets is the length of the partition
    # initial: number of subsets
    n = c2.fz(c2.field(s2, 'nb_subsets'))
    want = add(floor(add(mul(EPS, N), num(Fraction(1, 10**6)))), num(1))
    tols = holes([n], lambda v: 0 <= v <= 1e-4, 1e-6)
    roundoff(rep, 'initial-number-of-subsets', n,
             fsite(rep.prog, 'AdaptivePartitioner', '_setup_initial_partition'))
    eq_hole(rep, 'initial-number-of-subsets', n, lambda t: add(
        floor(add(mul(EPS, N), t)), num(1)), tols,
        fsite(rep.prog, 'AdaptivePartitioner', '_setup_initial_partition'))
    rep.use(c2)
    # the costs follow the partition
    base = [I.freeze(getf(lp.l.head, s, x), lp.l.head) for x in ('subset_costs', 'subset_sols')]
    if any(x is None for x in base):
        return rep.und('costs-follow-the-partition', site)
    ev = ctx.field(s, 'evaluator')

    def ref(fn, costs, sols, *a):
        c, x = ctx.box(costs), ctx.box(sols)
        spec(ctx, 'adaptive', fn, c, x, *a)
        return tm.nokind(ctx.fz(c)), tm.nokind(ctx.fz(x))
    if 'refined' not in ctx.seen:
        return rep.und('costs-follow-the-partition', site, 'no split')
    p, f = ctx.seen['refined']
    sp = ref('split_update', base[0], base[1], ctx.box(f['new_subsets']), ctx.box(p), ev)
    want = {tm.nokind(p): sp}
    for tag in ('merged_all', 'merged_top'):
        if tag in ctx.seen:
            q, f = ctx.seen[tag]
            want[tm.nokind(q)] = ref('merge_update', sp[0], sp[1], ctx.box(f['deleted_subsets']),
                                     ctx.box(f['target_subsets']), ctx.box(q), ev)
    for nm, g, st in states:
        if nm != 'next iteration':
            continue
        vs = joint(ctx, st, s, ('partition', 'subset_costs', 'subset_sols'))
        done = set()
        for h, (p, c, x) in pairs(vs, g):
            w = want.get(p)
            key = (p, c, x)
            if w is None:
                rep.und('costs-follow-the-partition', site, 'partition %s' % tm.show(p))
                continue
            tag = p.a[0] if p.op == 'app' else '?'
            with evalt.joint(*update_gens(base)):
                rep.eq('subset-costs-after-' + tag, c, w[0], site)
                rep.eq('subset-solutions-after-' + tag, x, w[1], site)
    # before the loop the costs are those of the initial partition
    for x, fn in zip(base, ('cost', 'sol')):
        for loc, ph in lp.l.phis.items():
            if ph is x:
                pf = lp.f.get('partition')
                q0 = [lp.l.init[z] for z in lp.l.phis if lp.l.phis[z] is pf]
                if not q0:
                    continue
                q0 = tm.nokind(I.freeze(q0[0], lp.l.head))
                k = kv(length(q0))
                x0 = tm.nokind(I.freeze(lp.l.init[loc], lp.l.head))
                if x0.op == 'ref' or any(z in lp.l.phis.values() for z in tm.walk(x0)):
                    rep.und('initial-subset-%ss' % fn, site)
                    continue
                rep.eq('initial-subset-%ss' % fn, x0, tm.nokind(
                    tab('L', length(q0), k, app(fn, 'num' if fn == 'cost' else A1,
                                                idx(q0, k)))), site)
    # values handed to the bounds and the big-M rows are the current ones
    p0, n0 = joint(ctx, lp.l.head, s, ('partition', 'nb_subsets'))
    cost0 = tm.nokind(base[0])
    sols0 = tm.nokind(base[1])
    for e in I.trace:
        if e.kind == 'call:partition_bound':
            f = rep.prog.method(rep.prog.find_class('UpperBounder'), 'partition_bound')
            arg = dict(zip([a.arg for a in f.node.args.args if a.arg != 'self'], e.args))
            if 'subset_costs' in arg:
                rep.eq('relaxation-sees-current-costs', tm.nokind(arg['subset_costs']), cost0,
                       e.site)
        if e.kind == 'call:first_iteration_bound':
            rep.eq('first-bound-sees-current-costs', tm.nokind(e.args[0]), cost0, e.site)
            rep.eq('first-bound-sees-current-solutions', tm.nokind(e.args[1]), sols0, e.site)
        if e.kind == 'call:update_big_M':
            f = rep.prog.method(rep.prog.find_class('BigMFinder'), 'update_big_M')
            arg = dict(zip([a.arg for a in f.node.args.args], e.args))
            rep.eq('big-M-for-current-size', arg.get('nb_scenarios', UNKF), n0, e.site)
            if 'partition' in arg:
                rep.eq('big-M-for-current-partition', tm.nokind(arg['partition']), p0, e.site)
            if 'vUB' in arg:
                rep.eq('big-M-from-current-bound', arg['vUB'], lp.f.get('vUB'), e.site)
            if 'method' in arg:
                rep.eq('big-M-method', arg['method'], sym('mmethod', 'str'), e.site)
