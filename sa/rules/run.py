"""C19, C21-C30: warm starts, caches, time budget, interruption, result files, command line."""
import ast
from .common import *
from ..lib import recorder, fresh
from .adaptive import (solver_ctx, Loop, NoLoop, loop_of, loop_site, joint, pairs, apps, is_app,
                       is_stub, bool3, soft_any, getf, setf, names_of)

TL = sym('limit', 'num')
GAP = sym('reqgap', 'num')
FINDER = sym('finder', ('obj', 'BigMFinder'))


def nows(*ts):
    """clock readings in the terms, earliest first."""
    out = []
    for t in ts:
        for x in tm.walk(t):
            if is_app(x, 'now') and x not in out:
                out.append(x)
    return sorted(out, key=lambda x: int(x.a[2].a[0]))


def clock(ev, *args):
    """an increasing clock."""
    r = ev.rng('clock')
    t = tm.Fraction(r.randint(0, 50))
    step = [tm.Fraction(r.choice((0, 1, 3, 40, 900)), r.choice((1, 10))) for _ in range(64)]
    k = int(args[0]) if args else 0
    return t + sum(step[:min(k, 63) + 1])


CLOCK = {'now': lambda ev, a: clock(ev, *[x for x in a if not isinstance(x, (tuple, str))])}


# ------------------------------------------------------------------ C23 time budget
def budget(rep, name, v, limit, site, effs=(), since=None, until=()):
    """v = max(limit - elapsed, 0) for the time elapsed from one of the readings `since` to
    one of the readings `until`."""
    v = tm.nokind(v)
    ns = list(since) + list(until)
    refs = [tm.tmax(num(0), sub(limit, sub(b, a))) for a in since for b in until]
    proved = any(v is tm.nokind(r) for r in refs)

    def nonneg(ev, vals):
        return True if vals[0] >= 0 else 'a negative time of %s is granted (limit %s, clock %s)' % (
            vals[0], ev.ev(limit, {}), [str(ev.ev(x, {})) for x in ns])

    def within(ev, vals):
        el = min([ev.ev(b, {}) - ev.ev(a, {}) for a in since for b in until])
        lim = ev.ev(limit, {})
        return True if vals[0] <= max(lim - el, 0) else \
            '%s s are granted although only %s of %s s are left' % (vals[0], max(lim - el, 0), lim)

    def all_(ev, vals):
        el = max([ev.ev(b, {}) - ev.ev(a, {}) for a in since for b in until])
        lim = ev.ev(limit, {})
        return True if vals[0] >= lim - el else \
            'only %s s are granted although %s of %s s are left' % (vals[0], lim - el, lim)
    return rep.claims(proved, [v], [(name + '-never-negative', nonneg),
                                    (name + '-within-the-limit', within),
                                    (name + '-all-that-is-left', all_)], site, effs, app=CLOCK,
                      gen={limit: lambda ev: ev.rng('lim').choice((0, 5, 60, 1800, 3600))})


def readings(ctx, fn):
    """result and effects of fn with the clock readings it makes."""
    ctx.I.log_time = True
    try:
        r, eff = take(ctx, fn)
    finally:
        ctx.I.log_time = False
    return r, eff, [(i, tm.nokind(e.args[0])) for i, e in enumerate(eff) if e.kind == 'now']


def families(t):
    """the clocks the readings in a term come from."""
    out = set()
    for x in nows(t):
        f = [a.a[0] for a in x.a[2:] if isinstance(a, tm.T) and a.op == 's' and
             a.a[0].startswith('clock:')]
        out.add(f[0][6:] if f else 'time')
    return out


def one_clock(rep, name, t, site):
    f = families(t)
    cpu = f & {'process_time', 'thread_time'}
    rep.holds(name + '-on-one-clock', len(f) < 2, site,
              'a reading of time.%s is subtracted from one of time.%s' % tuple(sorted(f))[:2]
              if len(f) > 1 else '')
    rep.holds(name + '-is-wall-clock', not cpu, site,
              'time.%s does not advance while the solver or another process runs' % ''.join(cpu))


@rule('C23', 'remaining-time')
def c23_left(rep):
    ctx = Ctx(rep.prog)
    tmgr = ctx.new('TimeManager')
    site = fsite(rep.prog, 'TimeManager', 'get_remaining_time')
    _, _, t0 = readings(ctx, lambda: ctx.call(tmgr, 'set_limit_and_start_time', TL))
    since = [t for _, t in t0]
    if not since:
        return rep.bad('clock-started', fsite(rep.prog, 'TimeManager', 'set_limit_and_start_time'),
                       'the clock is not read when the run starts')
    # a second reading still counts from the start of the run
    for nm in ('remaining-time', 'later-remaining-time'):
        r, eff, t1 = readings(ctx, lambda: ctx.fz(ctx.call(tmgr, 'get_remaining_time')))
        if not t1:
            rep.holds(nm, bool3(False, r), site, 'the remaining time is %s, the clock is not read'
                      % tm.show(r))
            continue
        one_clock(rep, nm, r, site)
        budget(rep, nm, r, TL, site, eff, since, [t for _, t in t1])
    _, _, t1 = readings(ctx, lambda: ctx.call(tmgr, 'set_final_time'))
    t = tm.nokind(ctx.fz(ctx.call(tmgr, 'get_total_time')))
    one_clock(rep, 'total-time', t, fsite(rep.prog, 'TimeManager', 'get_total_time'))
    ok = any(t is sub(b, a) for a in since for _, b in t1)
    rep.holds('total-time-from-start-to-end', bool3(ok, t), fsite(
        rep.prog, 'TimeManager', 'get_total_time'), 'the reported time is %s' % tm.show(t))
    # the iteration file shows times since that start
    inf = ctx.new('Informer')
    take(ctx, lambda: ctx.call(inf, 'store_iteration_info', **{
        k_: sym(k_, 'num') for k_ in ('iteration', 'nb_subsets', 'vLB', 'vUB', 'gap')}))
    one_clock(rep, 'iteration-time', tm.nokind(ctx.fz(ctx.field(inf, 'iteration_info') or unk(
        'iteration_info'))), fsite(rep.prog, 'Informer', 'store_iteration_info'))
    start = tm.nokind(ctx.fz(ctx.call(tmgr, 'get_start_time')))
    rep.holds('start-time', bool3(start in since, start), fsite(
        rep.prog, 'TimeManager', 'get_start_time'), 'the start time is %s' % tm.show(start))
    rep.use(ctx)
    # a solver starts the clock with the limit it was given, whatever ran before
    for i, cls_ in enumerate(('Solver', 'MilpSolver')):
        ctx = Ctx(rep.prog)
        inst = ctx.instance()
        if i:
            ctx.new('Solver', inst, time_limit=sym('earlier', 'num'), gap=GAP)
        s, _, t0 = readings(ctx, lambda: ctx.new(cls_, inst, time_limit=TL, gap=GAP))
        r, eff, t1 = readings(ctx, lambda: ctx.fz(ctx.call(s, '_available_time')))
        site = fsite(rep.prog, cls_, '_available_time')
        if t0 and t1:
            budget(rep, cls_ + '-time', r, TL, site, eff, [t for _, t in t0], [t for _, t in t1])
        else:
            rep.holds(cls_ + '-time', bool3(False, r), site, 'the time available is %s' %
                      tm.show(r))
        rep.eq(cls_ + '-time-limit-kept', ctx.fz(ctx.field(s, 'time_limit') or
                                                 unk('time_limit')), TL,
               fsite(rep.prog, cls_, '__init__'))
        rep.use(ctx)


@rule('C23', 'solver-call-limit')
def c23_call(rep):
    ctx = Ctx(rep.prog)
    inst = ctx.instance()
    s = ctx.new('Solver', inst, TL, GAP)
    lim = sym('lim', 'num')
    sb = sym('sb', 'bool')
    v, eff, ts = readings(ctx, lambda: ctx.fz(ctx.call(
        s, 'solve_cclp_model', inst, FINDER, time_limit=lim, gap=sym('g', 'num'),
        elapsed_time=sym('el', 'num'), save_bounds=sb, path=sym('path', 'str'))))
    site = fsite(rep.prog, 'Solver', 'solve_cclp_model')
    par = [(i, e) for i, e in enumerate(eff) if e.kind == 'param' and len(e.args) > 2 and
           e.args[1].op == 's' and e.args[1].a[0] == 'TimeLimit'] + \
          [(i, type(e)('param', e.args, e.g, e.site)) for i, e in enumerate(eff)
           if e.kind == 'setattr' and e.args[1].op == 's' and e.args[1].a[0] == 'TimeLimit']
    opts = [(i, e) for i, e in enumerate(eff) if e.kind == 'optimize']
    rep.sites += len(par) + len(opts)
    if not par:
        return rep.bad('limit-set-before-solving', site,
                       'the model is solved without a time limit')
    for i, e in opts:
        c = e.g
        for j, p in par:
            if j < i:
                c = conj(c, nt(p.g))
        rep.holds('limit-set-before-solving', bool3(c is FALSE, c), e.site,
                  'the model can be solved before its time limit is set')
    built = [i for i, e in enumerate(eff) if e.kind in ('model', 'constr', 'gvars', 'obj')]
    since = [t for i, t in ts if i < min(built)]
    for j, p in par:
        until = [t for i, t in ts if max(built) < i < j]
        if since and until:
            budget(rep, 'solver-limit', p.args[2], lim, p.site, eff[:j], since, until)
        else:
            v_ = tm.nokind(p.args[2])
            rep.holds('solver-limit', bool3(False, v_), p.site, 'the limit %s does not account '
                      'for the time spent on building the model' % tm.show(v_))
    # requested gap
    gp = [e for e in eff if e.kind == 'param' and e.args[1].op == 's' and
          e.args[1].a[0] == 'MIPGap']
    rep.holds('requested-gap-is-set', True if gp else False, site, 'no gap is given to the solver')
    for e in gp:
        rep.eq('requested-gap', e.args[2], sym('g', 'num'), e.site)
    # nothing is read from a model without a solution
    vals = [tm.nokind(x) for x in v.a[1:]] if v.op == 'lit' else None
    if vals is None:
        g, vs = None, [(h, x) for h, x in pairs([tm.nokind(v)], TRUE)]
        cases = [(h, x[0].a[1:]) for h, x in vs if x[0].op == 'lit']
        if len(cases) != len(vs):
            rep.und('no-solution-is-reported', site)
            return rep.use(ctx)
    else:
        cases = pairs(vals, TRUE)
    for h, x in cases:
        cnt = [a for a in tm.walk(h) if a.op == 'app' and a.a[0] == 'grb' and 'SolCount' in
               str(a.a[2])]
        none = tm.restrict(h, h)
        sc = None
        for a in tm.walk(tm.nokind(v)):
            if a.op == 'app' and a.a[0] == 'grb' and a.a[2].op == 's' and \
                    a.a[2].a[0] in ('SolCount', 'Status'):
                sc = a
        if sc is None:
            rep.holds('no-solution-is-reported', None if is_soft(v) else False, site,
                      'solution values are read even if the time limit was reached before any '
                      'solution was found')
            break
        reads = any(a.op == 'app' and (a.a[0] == 'X' or a.a[0] == 'grb' and a.a[2].op == 's' and
                                       a.a[2].a[0] in ('X', 'ObjVal')) for y in x
                    for a in tm.walk(y))
        if sc.a[2].a[0] != 'SolCount':
            rep.und('no-solution-is-reported', site)
            continue
        z = conj(h, eq(sc, num(0)))
        if z is FALSE:
            continue
        rep.holds('no-solution-is-reported', bool3(not reads, z), site,
                  'solution values are read although no solution was found')
        if not reads and len(x) == 4:
            rep.holds('no-solution-point', bool3(x[0] is NONE, x[0]), site,
                      'a point %s is returned although none was found' % tm.show(x[0]))
            b = x[3]
            ok = b.op == 'app' and b.a[0] == 'grb' and b.a[2].a[0] in ('ObjBound', 'ObjBoundC')
            rep.holds('no-solution-bound', bool3(ok, b), site,
                      'the upper bound returned without a solution is %s' % tm.show(b))
    rep.use(ctx)


@rule('C05', 'tested-solutions-are-exact-enough')
def c05_exact(rep):
    """rows and indicators are kept far more exactly than the test of a point demands."""
    ctx = Ctx(rep.prog)
    inst = ctx.instance()
    s = ctx.new('Solver', inst, TL, GAP)
    site = fsite(rep.prog, 'Solver', 'solve_cclp_model')
    for big, lazy in ((TRUE, tm.FALSE), (TRUE, TRUE), (tm.FALSE, tm.FALSE)):
        _, eff = take(ctx, lambda: ctx.fz(ctx.call(
            s, 'solve_cclp_model', inst, FINDER, time_limit=sym('lim', 'num'),
            gap=sym('g', 'num'), use_big_M=big, use_lazy=lazy)))
        first = min([i for i, e in enumerate(eff) if e.kind == 'optimize'] or [len(eff)])
        for name, most in (('FeasibilityTol', '1e-7'), ('IntFeasTol', '1e-8')):
            par = [e for e in eff[:first] if e.kind in ('param', 'setattr') and len(e.args) > 2 and
                   e.args[1].op == 's' and e.args[1].a[0] == name]
            rep.sites += len(par)
            if not par:
                # a name computed at run time could be this one
                odd = [e for e in eff[:first] if e.kind == 'param' and e.args[1].op != 's']
                rep.holds('tolerance-' + name, None if odd else False, site,
                          'the model is solved with the default %s, with which a solution can '
                          'fail the test of its own rows' % name)
                continue
            v, g = tm.nokind(par[-1].args[2]), par[-1].g
            ok = bool3(g is TRUE, g)
            rep.holds('tolerance-%s-always' % name, ok, par[-1].site,
                      '%s is set only if %s' % (name, tm.show(g)))
            rep.holds('tolerance-' + name, v.a[0] <= tm.Fraction(most) if v.op == 'n' else None,
                      par[-1].site, 'the %s %s is not below the tolerance of the test of a point' %
                      (name, tm.show(v)))
    rep.use(ctx)


@rule('C23', 'limits-passed-on')
def c23_pass(rep):
    # extended formulation: the limit of the solver call is what is left after the big-M step
    ctx = Ctx(rep.prog)
    I = ctx.I
    inst = ctx.instance()
    I.stubs['Solver.solve_cclp_model'] = I.stubs['MilpSolver.solve_cclp_model'] = recorder(
        'solve_cclp', lambda I, e, st: lit('U', *[fresh(I, 'r%d' % i, 'any', st)
                                                  for i in range(4)]))
    I.stubs['TimeManager.get_remaining_time'] = recorder(
        'left', lambda I, e, st: fresh(I, 'time_left', 'num', st))
    I.stubs['MilpSolver._compute_big_m'] = recorder('big_m', lambda I, e, st: NONE)
    s = ctx.new('MilpSolver', inst, time_limit=TL, gap=GAP)
    _, eff = take(ctx, lambda: ctx.call(s, 'solve', use_big_m=sym('ub', 'bool'),
                                        big_m_method=sym('mm', 'str')))
    f = rep.prog.method(rep.prog.find_class('Solver'), 'solve_cclp_model')
    nm = [a.arg for a in f.node.args.args if a.arg != 'self']
    site = fsite(rep.prog, 'MilpSolver', 'solve')
    calls = [(i, e) for i, e in enumerate(eff) if e.kind == 'call:solve_cclp']
    if not calls:
        rep.und('extended-limit', site)
    for i, e in calls:
        arg = dict(zip(nm, e.args))
        t = tm.nokind(arg.get('time_limit', NONE))
        big = max([j for j, x in enumerate(eff) if x.kind == 'call:big_m' and j < i] or [-1])
        ok = is_stub(t, 'time_left')
        rep.holds('extended-limit', bool3(ok, t), e.site,
                  'the extended model is solved with time limit %s instead of the time left' %
                  tm.show(t))
        if ok and big >= 0:
            at = [j for j, x in enumerate(eff) if x.kind == 'call:left']
            order = int(t.a[2].a[0])
            rep.holds('extended-limit-after-big-M', True if any(
                big < j < i for j in at) and order > sum(1 for j in at if j < big) else False,
                e.site, 'the time left is read before the big-M values are computed')
        if 'gap' in arg:
            rep.eq('extended-gap', arg['gap'], GAP, e.site)
    rep.use(ctx)
    # adaptive: what is left when the relaxation is solved
    ctx, s, lp = loop_of(rep, 'C23')
    if lp is None:
        return
    f = rep.prog.method(rep.prog.find_class('UpperBounder'), 'partition_bound')
    n = 0
    for e in ctx.I.trace:
        if e.kind == 'call:partition_bound':
            n += 1
            arg = dict(zip([a.arg for a in f.node.args.args if a.arg != 'self'], e.args))
            t = tm.nokind(arg.get('real_time_left', unk('real_time_left')))
            rep.holds('relaxation-limit', bool3(is_stub(t, 'time_left'), t), e.site,
                      'the relaxation is solved with time limit %s instead of the time left' %
                      tm.show(t))
    if not n:
        rep.und('relaxation-limit', loop_site(rep))
    l = lp.l
    if l.endst is not None:
        step = {l.phis[k]: l.step[k] for k in l.phis}
        h = conj(l.endst.g, lp.inv)
        h = conj(h, subst(l.test, step))
        ts = apps(h, 'time_left')
        last = sorted(ts, key=lambda a: int(a.a[-1].a[0]) if a.a[-1].op == 'n' else
                      int(a.a[2].a[0]))[-1:] if ts else []
        c = h
        for a in ts:
            c = conj(c, le(a, num(0)))
        rep.holds('no-iteration-without-time', bool3(ts and c is FALSE, c), loop_site(rep),
                  'a further iteration starts although no time is left')
    # inside the upper bounding step
    ctx = Ctx(rep.prog)
    I = ctx.I
    p = ctx.partition_instance()
    ub = ctx.new('UpperBounder', p, const('cost'), const('cost'))
    I.stubs['Solver.solve_cclp_model'] = I.stubs['AdaptivePartitioner.solve_cclp_model'] = \
        recorder('solve_cclp', lambda I, e, st: lit('U', NONE, NONE, *[
            fresh(I, 'r%d' % i, 'num', st) for i in range(2)]))
    I.recorded = getattr(I, 'recorded', ()) + ('solve_cclp_model',)
    sol = ctx.new('Solver', ctx.instance(), TL, GAP)
    left = sym('left', 'num')
    _, eff = take(ctx, lambda: ctx.call(
        ub, 'partition_bound', sol, sym('costs', ('L', 'num')), sym('vLB', 'num'),
        sym('zUB', A1), ctx.box(lit('L')), FINDER, left, TRUE, FALSE))
    calls = [e for e in eff if e.kind == 'call:solve_cclp']
    f = rep.prog.method(rep.prog.find_class('Solver'), 'solve_cclp_model')
    nm = [a.arg for a in f.node.args.args if a.arg != 'self']
    for e in calls:
        arg = dict(zip(nm, e.args))
        rep.eq('relaxation-limit-reaches-the-solver', tm.nokind(arg.get('time_limit', NONE)), left,
               e.site)
    if not calls:
        rep.und('relaxation-limit-reaches-the-solver', fsite(rep.prog, 'UpperBounder',
                                                             'partition_bound'))
    rep.use(ctx)


# ------------------------------------------------------------------ C30 gap
def denominators(t):
    out = []
    for x in tm.walk(t):
        if x.op == 'p':
            for m_, _ in x.a[0]:
                for y, k_ in m_:
                    if k_ < 0 and y not in out:
                        out.append(y)
    return out


@rule('C30', 'gap')
def c30(rep):
    ctx = Ctx(rep.prog)
    inst = ctx.instance()
    lb, ub = sym('vLB', 'num'), sym('vUB', 'num')
    for kind_, a, b in (('finite', lb, ub), ('no-lower-bound', tm.NINF, ub),
                        ('no-upper-bound', lb, tm.INF), ('no-bound', tm.NINF, tm.INF)):
        s = ctx.new('Solver', inst, TL, GAP)
        ctx.setfield(s, 'vLB', a)
        ctx.setfield(s, 'vUB', b)
        v, eff = take(ctx, lambda: tm.nokind(ctx.fz(ctx.call(s, '_compute_gap'))))
        r, _ = spec(ctx, 'run', 'gap', a, b)
        site = fsite(rep.prog, 'Solver', '_compute_gap')

        if kind_ != 'finite':
            w = tm.subst(v, {tm.NAN: const('not a number')})

            def missing(ev, vals):
                return True if vals[0] == float('inf') else \
                    'gap %s is reported although a bound is missing' % (vals[0],)
            rep.claims(v is tm.INF, [w], [(kind_ + '-gap', missing)], site, eff, gen={
                x: lambda ev: ev.rng('finite').choice((1, 2, tm.Fraction(7, 2)))
                for x in (lb, ub)})
            continue
        for h, (x,) in pairs([v], TRUE):
            for d in denominators(x):
                z = conj(h, eq(d, num(0)))
                rep.holds(kind_ + '-gap-divides', bool3(z is FALSE, z), site,
                          'division by zero when %s' % tm.show(z))

        def defn(ev, vals):
            x, y = ev.ev(a, {}), ev.ev(b, {})
            g = vals[0]
            if x == 0:
                if y > 1e-5:
                    return True if g == float('inf') else 'gap %s for bounds 0 and %s' % (g, y)
                return True
            w = (y - x) / x
            return True if abs(g - w) <= 1e-9 * max(1, abs(w)) else \
                'gap %s is reported for the bounds %s and %s' % (float(g), x, y)
        rep.claims(v is tm.nokind(ctx.fz(r)), [v], [(kind_ + '-gap', defn)], site, eff,
                   noraise=kind_ + '-gap-defined', gen={
                       lb: lambda ev: ev.rng('lb').choice((0, 1, 2, 10, tm.Fraction(7, 2))),
                       ub: lambda ev: ev.ev(lb, {}) + ev.rng('ub').choice(
                           (0, 1, tm.Fraction(1, 100), 5)) if ev.rng('ub2').random() < 0.9 else 3})
    rep.use(ctx)


# ------------------------------------------------------------------ C19 warm start
ZN = sym('nz', 'int')
tm.POS.add(ZN)
ZUB = sym('zUB', A1, (ZN,))
DN = sym('nd', 'int')
DEL = sym('deleted', ('L', 'int'), (DN,))


def _zgen():
    def deleted(ev):
        n = int(ev.ev(ZN, {}))
        r = ev.rng('deleted')
        xs = list(range(n))
        r.shuffle(xs)
        return tuple(xs[:r.randint(0, n - 1)])

    def zs(ev):
        r = ev.rng('z')
        return tuple(r.choice((0, 1)) for _ in range(int(ev.ev(ZN, {}))))
    return {ZN: lambda ev: ev.rng('nz').randint(1, 6),
            ZUB: zs,
            DEL: deleted, DN: lambda ev: len(ev.ev(DEL, {}))}


def _asdict(v):
    if isinstance(v, evalt.DV):
        return dict(v.it)
    raise evalt.Unk('dict')


@rule('C19', 'warm-start-values')
def c19_values(rep):
    ctx = Ctx(rep.prog)
    w = ctx.new('Warmstarter')
    site = fsite(rep.prog, 'Warmstarter', 'get_z_start')
    v, eff = take(ctx, lambda: tm.nokind(ctx.fz(ctx.call(w, 'get_z_start', ZUB, ctx.box(DEL)))))
    r, _ = spec(ctx, 'run', 'warm_start', ZUB, ctx.box(DEL))
    r = tm.nokind(ctx.fz(r))

    def want(ev):
        z, d = ev.ev(ZUB, {}), ev.ev(DEL, {})
        left = [i for i in range(len(z)) if i not in d]
        return z, d, {p: 1 for p, i in enumerate(left) if z[i] == 1}

    def exact(ev, vals):
        z, d, w_ = want(ev)
        got = {int(k): x for k, x in _asdict(vals[0]).items()}
        return True if all(got.get(p) == 1 for p in w_) and not any(
            x == 1 and p not in w_ for p, x in got.items()) else \
            'start values %s for the indicators %s after subsets %s were deleted' % (
                got, list(map(int, z)), list(d))

    def inside(ev, vals):
        z, d, w_ = want(ev)
        n = len(z) - len(d)
        got = [int(k) for k in _asdict(vals[0])]
        return True if all(0 <= k < n for k in got) else \
            'a start value is given for subset %s of %s' % (max(got), n)
    rep.claims(v is r, [v], [('selected-survivors-start-at-one', exact),
                             ('start-values-of-existing-subsets', inside)], site, eff,
               noraise='warm-start-defined', gen=_zgen())
    rep.use(ctx)


@rule('C19', 'warm-start-inputs')
def c19_inputs(rep):
    ctx = Ctx(rep.prog)
    I = ctx.I
    p = ctx.partition_instance()
    ub = ctx.new('UpperBounder', p, const('cost'), const('cost'))
    I.stubs['Solver.solve_cclp_model'] = recorder('solve_cclp', lambda I, e, st: lit(
        'U', NONE, NONE, *[fresh(I, 'r%d' % i, 'num', st) for i in range(2)]))
    I.stubs['Warmstarter.get_z_start'] = recorder('z_start', lambda I, e, st: fresh(
        I, 'zstart', ('D', 'num'), st))
    sol = ctx.new('Solver', ctx.instance(), TL, GAP)
    _, eff = take(ctx, lambda: ctx.call(
        ub, 'partition_bound', sol, sym('costs', ('L', 'num')), sym('vLB', 'num'),
        ZUB, ctx.box(DEL), FINDER, TL, TRUE, FALSE))
    f = rep.prog.method(rep.prog.find_class('Solver'), 'solve_cclp_model')
    nm = [a.arg for a in f.node.args.args if a.arg != 'self']
    site = fsite(rep.prog, 'UpperBounder', 'partition_bound')
    zs = [e for e in eff if e.kind == 'call:z_start']
    if not zs:
        rep.und('warm-start-of-previous-indicators', site)
    for e in zs:
        rep.eq('warm-start-of-previous-indicators', tm.nokind(e.args[0]), tm.nokind(ZUB), e.site)
        rep.eq('warm-start-without-deleted-subsets', tm.nokind(e.args[1]), tm.nokind(DEL), e.site)
    for e in eff:
        if e.kind == 'call:solve_cclp':
            z = tm.nokind(dict(zip(nm, e.args)).get('z_start', NONE))
            rep.holds('warm-start-handed-to-the-model', bool3(is_stub(z, 'zstart'), z), e.site,
                      'the model is started from %s' % tm.show(z))
    # the model receives them (build with the start values given)
    ctx2 = Ctx(rep.prog)
    inst = ctx2.instance()
    s = ctx2.new('Solver', inst, TL, GAP)
    zs = sym('zs', ('D', 'num'))
    ctx2.I.stubs['CCLPModel.build'] = recorder('build', lambda I, e, st: NONE)
    _, eff = take(ctx2, lambda: ctx2.call(s, 'solve_cclp_model', inst, FINDER, z_start=zs,
                                          use_big_M=sym('ub', 'bool'), use_lazy=sym('lz', 'bool')))
    f = rep.prog.method(rep.prog.find_class('CCLPModel'), 'build')
    nm = [a.arg for a in f.node.args.args if a.arg != 'self']
    for e in eff:
        if e.kind == 'call:build':
            arg = dict(zip(nm, e.args))
            rep.eq('model-built-with-start-values', tm.nokind(arg.get('z_start', NONE)), zs, e.site)
            rep.eq('model-built-as-requested', arg.get('use_big_M', NONE), sym('ub', 'bool'), e.site)
            rep.eq('model-built-lazily-as-requested', arg.get('use_lazy', NONE),
                   sym('lz', 'bool'), e.site)
    rep.use(ctx)
    rep.use(ctx2)


@rule('C19', 'indicators-follow-the-partition')
def c19_loop(rep):
    ctx, s, lp = loop_of(rep, 'C19')
    if lp is None:
        return
    I = ctx.I
    site = loop_site(rep)
    mg = ctx.field(s, 'merger')
    head = lp.l.head
    if mg is None or mg.op != 'ref' or getf(head, mg, 'deleted_subsets') is None or \
            getf(head, s, 'zUB') is None:
        return rep.und('indicators-follow-the-partition', site)
    z0 = tm.nokind(I.freeze(getf(head, s, 'zUB'), head))
    d0 = tm.nokind(I.freeze(getf(head, mg, 'deleted_subsets'), head))
    f = rep.prog.method(rep.prog.find_class('UpperBounder'), 'partition_bound')
    n = 0
    for e in I.trace:
        if e.kind == 'call:partition_bound':
            n += 1
            arg = dict(zip([a.arg for a in f.node.args.args if a.arg != 'self'], e.args))
            if 'zUB' in arg:
                rep.eq('relaxation-starts-from-last-indicators', tm.nokind(arg['zUB']), z0, e.site)
            if 'deleted_subsets' in arg:
                rep.eq('relaxation-told-last-deletions', tm.nokind(arg['deleted_subsets']), d0,
                       e.site)
    if not n:
        rep.und('relaxation-starts-from-last-indicators', site)
    want = {}
    if 'refined' in ctx.seen:
        want[tm.nokind(ctx.seen['refined'][0])] = tm.nokind(lit('L'))
    for tag in ('merged_all', 'merged_top'):
        if tag in ctx.seen:
            q, fl = ctx.seen[tag]
            want[tm.nokind(q)] = tm.nokind(fl['deleted_subsets'])
    for nm, g, st in lp.ends():
        if nm != 'next iteration':
            continue
        a, b = joint(ctx, st, s, ('partition', 'zUB')), joint(ctx, st, mg, ('deleted_subsets',))
        for h, (p, z, d) in pairs(a + b, g):
            h = conj(h, lp.time_ok(h))
            for nm_ in ('part_ub.0', 'first_ub.0'):
                for x in apps(h, nm_):
                    h = conj(h, nt(eq(NONE, x)))
            if h is FALSE:
                continue
            ok = is_stub(z, 'first_ub.1', 'part_ub.1')
            rep.holds('indicators-of-this-iteration', bool3(ok, z, h), site,
                      'the next warm start uses %s' % tm.show(z, 4))
            w = want.get(p)
            if w is None:
                rep.und('deletions-of-this-iteration', site, 'partition %s' % tm.show(p, 3))
                continue
            rep.holds('deletions-of-this-iteration', bool3(d is w, d, h), site,
                      'after %s the deleted subsets on record are %s' % (
                          tm.show(p, 3), tm.show(d, 4)))
