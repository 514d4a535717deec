"""C05 feasibility verdict, C06/C17 upper bounds, C07/C18 lower bounds."""
from .common import *
from ..lib import recorder

X = sym('x', A1, (NV,))


def viol(s, tol):
    i = kv(M)
    j = kv(NV)
    lhs = tsum(NV, j, mul(idx(idx(idx(AA, s), i), j), idx(X, j)))
    return tany(M, i, lt(tol, sub(lhs, idx(idx(BB, s), i))))


from ..terms import tany, tall


@rule('C05', 'feasibility-verdict')
def c05(rep):
    ctx = Ctx(rep.prog)
    inst = ctx.instance()
    site = fsite(rep.prog, 'ChanceKnapInstance', 'is_feasible')
    r = ctx.fz(ctx.call(inst, 'is_feasible', X))
    tols = holes([r], lambda v: 0 < v <= 1e-4, 1e-6)
    slacks = [num(0)] + holes([r], lambda v: 0 < v <= 1e-3, 1e-6)
    if r.op != 'lit' or len(r.a) < 5:
        return rep.und('feasibility-verdict', site)
    roundoff(rep, 'verdict', r.a[1], site)

    def verd(tol, slack):
        s = kv(N)
        return le(tsum(N, s, ite(viol(s, tol), num(1), num(0))), add(mul(EPS, N), slack))
    cands = [(t, s) for t in tols for s in slacks]
    good = [c for c in cands if verd(*c) is r.a[1]]
    tol, sl = good[0] if good else cands[0]
    rep.eq('feasibility-verdict', r.a[1], verd(tol, sl), site,
           'feasible iff at most eps*N scenarios have a violated row')
    s = kv(N)
    flags = tab('L', N, s, viol(s, tol))
    rep.eq('infeasible-count', r.a[2], tsum(N, s, ite(viol(s, tol), num(1), num(0))), site)
    rep.eq('per-scenario-flags', tm.nokind(r.a[4]), flags, site)
    # state left behind for the refiner and the projection step
    v = ctx.fz(ctx.call(inst, 'check_feasibility', X))
    site = fsite(rep.prog, 'ChanceKnapInstance', 'check_feasibility')
    rep.eq('check-agrees-with-is-feasible', v, r.a[1], site)
    k = kv(N)
    f = ctx.fz(ctx.field(inst, 'is_scenario_infeasible') or UNKF)
    rep.eq('stored-flags', tm.nokind(f), flags, site)
    f = ctx.fz(ctx.field(inst, 'infeasible_scenarios') or UNKF)
    rep.eq('stored-infeasible-scenarios', tm.nokind(f),
           tm.ftab('L', N, s, viol(s, tol), s), site)
    g = ctx.fz(ctx.call(inst, 'get_feasible_scenarios'))
    rep.eq('feasible-mask', tm.nokind(g), tab('L', N, s, nt(viol(s, tol))),
           fsite(rep.prog, 'ChanceKnapInstance', 'get_feasible_scenarios'))
    # the verdict of an earlier point does not leak into a later one
    y = sym('y', A1, (NV,))
    ctx.call(inst, 'check_feasibility', y)
    v2 = ctx.fz(ctx.call(inst, 'check_feasibility', X))
    rep.eq('no-stale-verdict', v2, r.a[1], site)
    rep.eq('no-stale-mask', tm.nokind(ctx.fz(ctx.call(inst, 'get_feasible_scenarios'))),
           tab('L', N, s, nt(viol(s, tol))), site)
    rep.use(ctx)


UNKF = tm.unk('field')


@rule('C17', 'quantile-bound')
def c17(rep):
    ctx = Ctx(rep.prog)
    site = fsite(rep.prog, 'UpperBounder', 'ahmed_et_al_bound')
    ub = ctx.new('UpperBounder', ctx.instance(), const('cost'), const('cost'))
    costs = sym('cost', ('L', 'num'), (N,))
    v = ctx.fz(ctx.call(ub, 'ahmed_et_al_bound', ctx.box(costs), PR, EPS))
    eq_hole(rep, 'quantile-bound', v, lambda t: ctx.fz(spec(
        ctx, 'bounds', 'quantile_bound', costs, PR, EPS, t)[0]),
        holes([v], lambda c: 0 < c <= 1e-6, 1e-7), site,
        'smallest cost whose cumulative probability exceeds eps')
    rep.use(ctx)


@rule('C17', 'largest-subset-cost-bound')
def c17b(rep):
    ctx = Ctx(rep.prog)
    site = fsite(rep.prog, 'UpperBounder', 'first_iteration_bound')
    ub = ctx.new('UpperBounder', ctx.instance(), const('cost'), const('cost'))
    costs = sym('cost', ('L', 'num'), (L,))
    sols = sym('sol', ('L', A1), (L, NV))
    v = ctx.fz(ctx.call(ub, 'first_iteration_bound', ctx.box(costs), ctx.box(sols)))
    r, _ = spec(ctx, 'bounds', 'largest_cost', ctx.box(costs), ctx.box(sols))
    rep.eq('largest-subset-cost-bound', tm.nokind(v), tm.nokind(ctx.fz(r)), site)
    rep.use(ctx)


def partition_bound(rep):
    ctx = Ctx(rep.prog)
    ap = sym('solver', ('obj', 'AdaptivePartitioner'))
    ctx.I.recorded = ('solve_cclp_model',)
    ctx.I.methtypes = {'solve_cclp_model': 'any'}
    inst = ctx.instance()
    p = ctx.partition_instance()
    ctx.call(p, 'load_partition', L, ctx.box(PART))
    ub = ctx.new('UpperBounder', p, const('random'), const('cost'))
    costs = sym('cost', ('L', 'num'), (L,))
    z = sym('z', ('A', 'num'), (sym('L0', 'int'),))
    dele = sym('deleted', ('L', 'int'))
    vlb = sym('~vLB', 'num')
    v, eff = take(ctx, lambda: ctx.fz(ctx.call(
        ub, 'partition_bound', ap, ctx.box(costs), vlb, z, ctx.box(dele),
        sym('finder', ('obj', 'BigMFinder')), sym('~time', 'num'), sym('useM', 'bool'),
        sym('lazy', 'bool'))))
    return ctx, ap, p, v, eff, costs, vlb


@rule('C17', 'pruning')
def c17c(rep):
    ctx, ap, p, v, eff, costs, vlb = partition_bound(rep)
    site = fsite(rep.prog, 'UpperBounder', 'partition_bound')
    calls = [e for e in eff if e.kind == 'call:solve_cclp_model']
    if len(calls) != 1:
        return rep.und('pruning', site, 'solve_cclp_model called %d times' % len(calls))
    c = calls[0]
    f = rep.prog.method(rep.prog.find_class('AdaptivePartitioner'), 'solve_cclp_model')
    names = [a.arg for a in f.node.args.args][1:]
    arg = dict(zip(names, c.args[1:]))
    pr = arg.get('prune_indices')
    k = kv(L)
    eq_hole(rep, 'pruned-subsets', tm.nokind(pr), lambda t: tm.ftab(
        'L', L, k, le(idx(costs, k), sub(vlb, t)), k),
        holes([pr], lambda x: 0 < x <= 1, 1e-3), c.site,
        'only subsets whose cost is below the lower bound may be fixed to zero')
    g = arg.get('gap')
    rep.holds('partitioned-problem-gap', None if g.op != 'n' else 0 <= g.a[0] <= 1e-6,
              c.site, 'the bound is only valid to the relative gap %s' % g)
    rep.eq('partitioned-problem-solved', arg.get('chance_instance_part'), p, c.site)
    for nm, s in (('use_big_M', sym('useM', 'bool')), ('use_lazy', sym('lazy', 'bool')),
                  ('bigMFinder', sym('finder', ('obj', 'BigMFinder')))):
        rep.eq(nm + '-forwarded', arg.get(nm, UNKF), s, c.site)
    res = app('m:solve_cclp_model', 'any', *c.args)
    rep.eq('result-returned', v, lit('U', *[idx(res, num(i)) for i in range(4)]), site)
    rep.use(ctx)


# ------------------------------------------------------------------ C18 projection
def call_named(ctx, obj, name, avail):
    """call a method binding its parameters by name; unknown required ones -> Anchor."""
    cn = ctx.st.heap[obj.a[0]][1]
    f = rep_method(ctx, obj, name)
    args = []
    a = f.node.args
    names = [x.arg for x in a.args][1:]
    nd = len(a.defaults)
    kw = {}
    for i, nm in enumerate(names):
        if nm in avail:
            kw[nm] = avail[nm]
        elif i < len(names) - nd:
            raise KeyError('parameter ' + nm)
    for nm, v in avail.items():
        if nm not in names and nm in ctx.fields(obj) and nm != 'xUB':
            ctx.setfield(obj, nm, v)
    return ctx.call(obj, name, **kw)


def rep_method(ctx, obj, name):
    c = ctx.st.heap[obj.a[0]][1]
    f = ctx.prog.method(c, name)
    if f is None:
        raise Anchor('%s.%s' % (c.name, name))
    return f


def lower(ctx, method='rescaled_max_violation'):
    lb = ctx.new('LowerBounder', ctx.instance(), const(method))
    return lb


def project_call(ctx, lb, x, v):
    if ctx.field(lb, 'vLB') is None and 'vLB' not in [
            a.arg for a in rep_method(ctx, lb, 'deterministic_bound').node.args.args]:
        ctx.setfield(lb, 'vLB', v)
    return call_named(ctx, lb, 'deterministic_bound', {'xUB': x, 'x_UB': x, 'x': x, 'vLB': v})


X2 = sym('x2', A1, (NV,))
VL1 = sym('~vLB1', 'num')
VL2 = sym('~vLB2', 'num')


def drop_params(rep, name, code, site):
    for e in code:
        if e.kind == 'param':
            nm = e.args[1]
            if nm.op == 's' and nm.a[0] in ('FeasibilityTol', 'IntFeasTol'):
                v = e.args[2]
                rep.holds(name, v.op == 'n' and v.a[0] <= num(1e-5).a[0] if v.op == 'n' else None,
                          e.site, 'tolerance %s is %s' % (nm, v))
    return [e for e in code if e.kind != 'param']


@rule('C18', 'projection-selects-enough-scenarios')
def c18(rep):
    for meth in ('rescaled_max_violation', 'counter'):
        ctx = Ctx(rep.prog)
        site = fsite(rep.prog, 'LowerBounder', 'deterministic_bound')
        inst = ctx.instance()
        mark = len(ctx.I.trace)
        lb = lower(ctx, meth)
        if meth == 'counter':
            f1 = sym('f1', ('A', 'bool'), (N,))
            f2 = sym('f2', ('A', 'bool'), (N,))
            ctx.call(lb, 'save_feasible_scenarios', f1)
            ctx.call(lb, 'save_feasible_scenarios', f2)
            k = kv(N)
            i1 = i2 = ctx.fz(tab('A', N, k, sub(num(0), add(tm.asnum(idx(f1, k)),
                                                            tm.asnum(idx(f2, k))))))
        res1 = project_call(ctx, lb, X, VL1)
        if meth != 'counter':
            ref = None
        res2 = project_call(ctx, lb, X2, VL2)
        code = drop_params(rep, 'tolerances', ctx.I.trace[mark:], site)
        code = [e for e in code if not _is_cut(e)]
        del ctx.I.trace[mark:]

        def ref(t, vt):
            c2 = Ctx(rep.prog)
            c2._inst = None
            mk2 = len(c2.I.trace)
            ins = c2.instance()
            m0 = len(c2.I.trace)
            d = c2.new('DeterModel', ins)
            c2.call(d, 'build', c2.box(lit('L', num(0))))
            prev = lit('L', num(0))
            plb = num(-10**6)
            for x, vl in ((X, VL1), (X2, VL2)):
                if meth == 'counter':
                    ix = i1
                else:
                    ix = c2.fz(spec(c2, 'bounds', 'violation_index', AA, BB, x, N, M, vt)[0])
                sel = c2.fz(spec(c2, 'bounds', 'selected', ix, PR, EPS, t)[0])
                sel = tm.askind('L', interp_drop_none(sel))
                _, e = spec(c2, 'bounds', 'project', d, prev, sel, vl, plb, FALSE)
                c2.I.trace += e
                prev, plb = sel, vl
            return [e for e in c2.I.trace[m0:] if e.kind != 'param']
        tols = holes(code, lambda c: 0 < c <= 1e-6, 1e-7)
        vts = holes(code, lambda c: 1e-9 <= c <= 1e-2, 1e-3)
        cands = [(t, v) for t in tols for v in vts] if meth != 'counter' else [
            (t, None) for t in tols]
        traces_hole(rep, 'selected-scenarios-' + meth, code, lambda tv: ref(*tv), cands[:9], site,
                    drop=('missing_key',))
        rep.use(ctx)


def _is_cut(e):
    """constraint that bounds the objective from below by the current lower bound."""
    if e.kind != 'constr':
        return False
    fv = [x for x in tm.walk(e.args[1]) if x in (VL1, VL2)]
    return bool(fv)


def interp_drop_none(v):
    from ..interp import drop_none
    return drop_none(v)


# ------------------------------------------------------------------ C07 lower bounds
@rule('C07', 'projected-bound')
def c07(rep):
    ctx = Ctx(rep.prog)
    site = fsite(rep.prog, 'LowerBounder', 'deterministic_bound')
    inst = ctx.instance()
    mark = len(ctx.I.trace)
    lb = lower(ctx)
    res1 = ctx.fz(project_call(ctx, lb, X, VL1))
    m2 = len(ctx.I.trace)
    res2 = ctx.fz(project_call(ctx, lb, X2, VL2))
    code = drop_params(rep, 'tolerances', ctx.I.trace[mark:], site)
    mid = [e for e in code if e.kind == 'model'][0].args[0]
    # rows other than scenario rows: only "objective at least the current lower bound"
    cuts = [e for e in code if _is_cut(e)]
    grp = [e.args[0] for e in code if e.kind == 'gvars'][0]
    k = kv(NV)
    obj = tsum(NV, k, mul(app('gvar', 'num', grp, k), idx(CC, k)))
    good = {le(VL1, obj), le(VL2, obj)}
    bad = [e for e in cuts if e.args[1] not in good]
    rep.sites += len(cuts)
    if bad:
        rep.bad('cut-is-current-lower-bound', bad[0].site,
                'row %s is not "objective >= current lower bound"' % tm.show(bad[0].args[1]))
    else:
        rep.ok('cut-is-current-lower-bound', site)
    late = [e for e in code[:m2 - mark] if _is_cut(e) and VL2 in e.args[1].fv]
    # value and point come from the same solved model, after the optimisation
    for nm, r, i in (('first', res1, 1), ('second', res2, 2)):
        k = kv(NV)
        st = app('grb', 'any', const('Status'), mid, num(i))
        xs = tab('L', NV, k, app('X', 'num', app('gvar', 'num', grp, k)))
        ov = app('grb', 'num', const('ObjVal'), mid, num(i))
        conds = [eq(app('grb', 'num', const('Status'), mid, num(i)), num(3))]
        if r.op != 'lit' or len(r.a) != 3:
            rep.und('value-and-point-' + nm, site, 'result shape')
            continue
        xr, vr = tm.nokind(r.a[1]), tm.nokind(r.a[2])
        ok = None
        pairs = [(g, l) for g, l in tm.leafs(lit('U', NONE) if False else tm.lift(
            lambda a, b: lit('U', a, b), xr, vr) or lit('U', xr, vr), TRUE)]
        st = True
        why = ''
        for g, l in pairs:
            if g is FALSE:
                continue
            a, b = l.a[1], l.a[2]
            if a is tm.nokind(xs) and b is ov:
                continue
            if a is NONE and b.op == 'n' and b.a[0] <= -10**5:
                continue
            if a is NONE and b is tm.NINF:
                continue
            if is_soft(a) or is_soft(b):
                st = None
                continue
            st = False
            why = 'returns point %s with value %s' % (tm.show(a), tm.show(b))
            break
        rep.holds('value-and-point-' + nm, st, site, why)
        # no bound when the model just solved is infeasible
        gone = {x: num(3 if x.a[2] is const('Status') else 0) for x in tm.walk(r)
                if x.op == 'app' and x.a[0] == 'grb' and len(x.a) == 5 and
                x.a[2] in (const('Status'), const('SolCount')) and x.a[4] is num(i)}
        v = tm.nokind(subst(r, gone)) if gone else r
        if not gone:
            rep.holds('no-bound-if-infeasible-' + nm, None if is_soft(r) else False, site,
                      'a bound is reported whatever the outcome of the solve')
            continue
        ok = v.op == 'lit' and tm.nokind(v.a[1]) is NONE and (
            v.a[2] is tm.NINF or v.a[2].op == 'n' and v.a[2].a[0] <= -10**5)
        rep.holds('no-bound-if-infeasible-' + nm, bool3(ok, v), site,
                  'point %s and value %s are reported for an infeasible model' % (
                      (tm.show(v.a[1], 3)[:80], tm.show(v.a[2], 3)[:80])
                      if v.op == 'lit' and len(v.a) == 3 else ('?', '?')))
    rep.use(ctx)


@rule('C07', 'incumbent-bound')
def c07b(rep):
    ctx = Ctx(rep.prog)
    site = fsite(rep.prog, 'LowerBounder', 'incumbent_bound')
    inst = ctx.instance()
    lb = lower(ctx)
    cands = sym('cand', ('L', A1), (L, NV))
    ub, vl = sym('~vUB', 'num'), sym('~vLB', 'num')
    r = ctx.fz(ctx.call(lb, 'incumbent_bound', ctx.box(cands), ub, vl))
    tols = [num(0)] + holes([r], lambda c: 0 < c <= 1e-6, 1e-8)
    eq_hole(rep, 'best-feasible-incumbent', tm.nokind(r), lambda t: tm.nokind(ctx.fz(spec(
        ctx, 'bounds', 'best_incumbent', ctx.box(cands), CC, ub, vl, inst, t)[0])), tols, site,
        'incumbent must be feasible, improving, and returned with its own objective value')
    r0 = ctx.fz(ctx.call(lb, 'incumbent_bound', ctx.box(lit('L')), ub, vl))
    rep.eq('no-candidate-no-bound', r0, lit('U', FALSE, NONE, NONE), site)
    rep.use(ctx)
