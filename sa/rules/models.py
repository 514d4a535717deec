"""C01-C04, C20: the optimisation models handed to the solver."""
from .common import *

ARGS = (AA, BB, CC)


def part_ctx(prog):
    ctx = Ctx(prog)
    p = ctx.partition_instance()
    ctx.call(p, 'load_partition', L, ctx.box(PART))
    return ctx, p


def part_spec(k=None):
    """aggregated probability and tolerance of a partition."""
    t = kv(L)
    l = kv(length(idx(PART, t)))
    mn = mmof('minof', length(idx(PART, t)), l, idx(PR, idx(idx(PART, t), l)))
    tot = tsum(L, t, mn)
    return tab('A', L, t, div(mn, tot)), div(EPS, tot)


@rule('C01', 'cclp-model-over-scenarios')
def c01_scen(rep):
    ctx = Ctx(rep.prog)
    inst = ctx.instance()
    site = fsite(rep.prog, 'CCLPModel', 'build')

    def run():
        m = ctx.new('CCLPModel', inst, NONE)
        ctx.call(m, 'build')
        return m
    m, code = take(ctx, run)
    _, ref = spec(ctx, 'models', 'cclp', N, NV, M, AA, BB, CC, PR, EPS, CONT)
    rep.traces('cclp-model-over-scenarios', code, ref, site)
    rep.use(ctx)


@rule('C01', 'cclp-model-over-partition')
def c01_part(rep):
    ctx, p = part_ctx(rep.prog)
    site = fsite(rep.prog, 'CCLPModel', 'build')

    def run():
        m = ctx.new('CCLPModel', p, NONE)
        ctx.call(m, 'build')
    m, code = take(ctx, run)
    pp, ep = part_spec()
    _, ref = spec(ctx, 'models', 'cclp_part', PART, L, NV, M, AA, BB, CC, pp, ep, CONT)
    rep.traces('cclp-model-over-partition', code, ref, site)
    rep.use(ctx)


@rule('C01', 'warm-start-and-pruning')
def c01_warm(rep):
    ctx = Ctx(rep.prog)
    inst = ctx.instance()
    zs = sym('zs', ('D', 'num'))

    def run():
        m = ctx.new('CCLPModel', inst, NONE)
        ctx.call(m, 'build', z_start=ctx.box(zs))
        return m
    m, code = take(ctx, run)

    def ref():
        z, e = spec(ctx, 'models', 'cclp', N, NV, M, AA, BB, CC, PR, EPS, CONT)
        _, e2 = spec(ctx, 'models', 'warm', z, ctx.box(zs))
        return e + e2
    rep.traces('warm-start', code, ref(), fsite(rep.prog, 'CCLPModel', 'build'))
    m, code = take(ctx, run2(ctx, inst))
    s = sym('s', 'int')
    _, c2 = take(ctx, lambda: ctx.call(m, 'fix_z_to_zero', s))
    z, e = spec(ctx, 'models', 'cclp', N, NV, M, AA, BB, CC, PR, EPS, CONT)
    mid = [x for x in e if x.kind == 'model'][0].args[0]
    e2 = [type(e[0])('constr', (mid, eq(idx(ctx.fz(z), s), num(0))), TRUE, None)]
    rep.traces('fix-z-to-zero', code + c2, e + e2, fsite(rep.prog, 'CCLPModel', 'fix_z_to_zero'))
    rep.use(ctx)


def run2(ctx, inst):
    def run():
        m = ctx.new('CCLPModel', inst, NONE)
        ctx.call(m, 'build')
        return m
    return run


@rule('C01', 'declared-bounds')
def c01_bounds(rep):
    declared(rep, 'CCLPModel', lambda ctx, m: ctx.call(m, 'build'), lambda ctx, i: (i, NONE))


@rule('C03', 'declared-bounds')
def c03_bounds(rep):
    declared(rep, 'DeterModel', lambda ctx, m: ctx.call(m, 'build', sym('s', 'int')),
             lambda ctx, i: (i,))


def declared(rep, cname, build, args):
    """the bounds of the variables are the ones the instance declares, whatever they are."""
    ctx = Ctx(rep.prog)
    inst = ctx.instance()
    site = fsite(rep.prog, cname, 'build')
    used = set()
    want = {}
    for nm in ('var_lb', 'var_ub'):
        v = sym('declared_' + nm, ('A', 'num'), (NV,))
        want[nm] = v

        def get(I, f, e, st, n, v=v, nm=nm):
            used.add(nm)
            return I.box(v, st)
        for c in ('ChanceInstance', 'ChanceKnapInstance'):
            ctx.I.stubs['%s.get_%s' % (c, nm)] = get
        if nm in ctx.fields(inst):
            ctx.setfield(inst, nm, ctx.box(v))
            used.add(nm)

    def run():
        m = ctx.new(cname, *args(ctx, inst))
        build(ctx, m)
    _, code = take(ctx, run)
    gv = [e for e in code if e.kind == 'gvars' and length(e.args[1]) is NV]
    if len(gv) != 1 or len(used) != 2:
        return rep.und('declared-bounds', site, 'the variables are not found')
    k = kv(NV)
    b = tm.nokind(idx(gv[0].args[1], k))
    cont = lit('U', idx(want['var_lb'], k), idx(want['var_ub'], k), const('C'))
    got = subst(b, {CONT: TRUE})
    rep.eq('declared-bounds', tm.nokind(got), tm.nokind(cont), gv[0].site)
    rep.use(ctx)


@rule('C01', 'solution-readback')
def c01_read(rep):
    ctx = Ctx(rep.prog)
    inst = ctx.instance()
    m, code = take(ctx, run2(ctx, inst))
    c = canon(code)
    grp = {}
    for e in c:
        if e.kind == 'gvars':
            grp[length(e.args[1])] = e.args[0]
    gx = grp.get(NV)
    gz = grp.get(N)
    if gx is None or gz is None:
        return rep.und('solution-readback')
    k = kv(NV)
    x = ctx.fz(ctx.call(m, 'get_var_x_val'))
    rep.eq('x-readback', tm.nokind(x), tm.nokind(tab('L', NV, k, app('X', 'num', app(
        'gvar', 'num', gx, k)))), fsite(rep.prog, 'OptiModel', 'get_var_x_val'))
    k = kv(N)
    z = ctx.fz(ctx.call(m, 'get_var_z_val'))
    rep.eq('z-readback', tm.nokind(z), tm.nokind(tab('L', N, k, app('X', 'num', app(
        'gvar', 'num', gz, k)))), fsite(rep.prog, 'CCLPModel', 'get_var_z_val'))
    mid = [e for e in c if e.kind == 'model'][0].args[0]
    take(ctx, lambda: ctx.call(m, 'solve'))
    for g, a in (('get_obj_val', 'ObjVal'), ('get_obj_bnd', 'ObjBound')):
        v = ctx.fz(ctx.call(m, g))
        rep.eq(a + '-readback', v, app('grb', 'num', const(a), mid, num(1)),
               fsite(rep.prog, 'OptiModel', g))
    rep.use(ctx)


# ------------------------------------------------------------------ C02 big-M rows
def symfinder(ctx):
    ctx.I.methtypes = {'get_vector_big_M': ('A', 'num')}
    return sym('finder', ('obj', 'BigMFinder'))


TOLP = lambda v: -1e-3 < v <= 0


@rule('C02', 'big-M-model-over-scenarios')
def c02_scen(rep):
    for lazy in (FALSE, TRUE):
        ctx = Ctx(rep.prog)
        inst = ctx.instance()
        f = symfinder(ctx)

        def run():
            m = ctx.new('CCLPModel', inst, f)
            ctx.call(m, 'build', use_big_M=TRUE, use_lazy=lazy)
        _, code = take(ctx, run)
        nm = 'big-M-model-over-scenarios' + ('-lazy' if lazy is TRUE else '')
        traces_hole(rep, nm, code, lambda t: spec(
            ctx, 'models', 'bigm', f, N, NV, M, AA, BB, CC, PR, EPS, CONT, t)[1],
            holes(code, TOLP, -1e-6), fsite(rep.prog, 'CCLPModel', 'build'))
        rep.use(ctx)


@rule('C02', 'big-M-model-over-partition')
def c02_part(rep):
    ctx, p = part_ctx(rep.prog)
    f = symfinder(ctx)

    def run():
        m = ctx.new('CCLPModel', p, f)
        ctx.call(m, 'build', use_big_M=TRUE)
    _, code = take(ctx, run)
    pp, ep = part_spec()
    traces_hole(rep, 'big-M-model-over-partition', code, lambda t: spec(
        ctx, 'models', 'bigm_part', f, PART, L, NV, M, AA, BB, CC, pp, ep, CONT, t)[1],
        holes(code, TOLP, -1e-6), fsite(rep.prog, 'CCLPModel', 'build'))
    rep.use(ctx)


# ------------------------------------------------------------------ C03 deterministic model
@rule('C03', 'deterministic-model')
def c03(rep):
    S = sym('S', ('L', 'int'))
    s = sym('s', 'int')
    s2 = sym('s2', 'int')
    site = fsite(rep.prog, 'DeterModel', 'build')
    # list of scenarios
    ctx = Ctx(rep.prog)
    inst = ctx.instance()

    def build(x):
        m = ctx.new('DeterModel', inst)
        ctx.call(m, 'build', x)
        return m
    m, code = take(ctx, lambda: build(ctx.box(S)))
    mx, ref = spec(ctx, 'models', 'deter', S, NV, M, AA, BB, CC, CONT)
    rep.traces('rows-of-a-list', code, ref, site)
    # a single scenario index
    m1, code1 = take(ctx, lambda: build(s))
    _, ref1 = spec(ctx, 'models', 'deter', lit('L', s), NV, M, AA, BB, CC, CONT)
    rep.traces('rows-of-a-single-scenario', code1, ref1, site)
    # later addition of one scenario / a list
    for nm, x, y in (('add-single', s, lit('L', s)), ('add-list', ctx.box(S), S)):
        m2, c0 = take(ctx, lambda: build(s2))
        _, c1 = take(ctx, lambda: ctx.call(m2, 'add', x))
        mx, r0 = spec(ctx, 'models', 'deter', lit('L', s2), NV, M, AA, BB, CC, CONT)
        mdl, vx = mx.a[1], mx.a[2]
        if nm == 'add-single':
            _, r1 = spec(ctx, 'models', 'add_one', mdl, vx, s, NV, M, AA, BB)
        else:
            _, r1 = spec(ctx, 'models', 'add_many', mdl, vx, S, NV, M, AA, BB)
        rep.traces(nm, c0 + c1, r0 + r1, fsite(rep.prog, 'DeterModel', 'add'))
    # removal: exactly the rows of the scenario, from the model they belong to
    for nm, x, S2 in (('remove-single', s, None), ('remove-list', ctx.box(S), S)):
        m3, c0 = take(ctx, lambda: build(ctx.box(S) if S2 is not None else s))
        _, c1 = take(ctx, lambda: ctx.call(m3, 'remove', x))
        mx, r0 = spec(ctx, 'models', 'deter', lit('L', s) if S2 is None else S, NV, M,
                      AA, BB, CC, CONT)
        mid = [e for e in r0 if e.kind == 'model'][0].args[0]
        cons = [e for e in r0 if e.kind == 'constr']
        E = type(r0[0])
        r1 = [E('remove', (mid, mk('cref', mid, e.args[1])), e.g, e.site, e.qs) for e in cons]
        rep.traces(nm, c0 + c1, r0 + r1, fsite(rep.prog, 'DeterModel', 'remove'))
    rep.use(ctx)


# ------------------------------------------------------------------ C04 aggregated data
@rule('C04', 'partition-data')
def c04(rep):
    ctx, p = part_ctx(rep.prog)
    fs = lambda m: fsite(rep.prog, 'PartitionChanceKnapInstance', m)
    pp, ep = part_spec()
    t = kv(L)
    nl = length(idx(PART, t))
    g = lambda *a: ctx.fz(ctx.call(p, *a))
    rep.eq('number-of-subsets', g('get_nb_scenarios'), L, fs('get_nb_scenarios'))
    rep.eq('rows-per-subset', g('get_nb_constraints', t), mul(M, nl), fs('get_nb_constraints'))
    rep.eq('subset-probability', g('get_proba'), pp, fs('get_proba'))
    rep.eq('rescaled-tolerance', g('get_epsilon'), ep, fs('get_epsilon'))
    k = kv(mul(M, nl))
    s, i = idx(idx(PART, t), tm.fdiv(k, M)), tm.mod(k, M)
    rep.eq('subset-left-hand-side', g('get_matrix_A', t), tab('A', mul(M, nl), k, idx(idx(
        AA, s), i)), fs('get_matrix_A'))
    rep.eq('subset-right-hand-side', g('get_vector_b', t), tab('A', mul(M, nl), k, idx(idx(
        BB, s), i)), fs('get_vector_b'))
    rep.eq('objective-shared', g('get_vector_c'), CC, fs('get_vector_c'))
    rep.eq('all-matrices-shared', g('get_matrices_A'), AA, fs('get_matrices_A'))
    rep.eq('all-vectors-shared', g('get_vectors_b'), BB, fs('get_vectors_b'))
    rep.eq('dimension-shared', g('get_nb_vars'), NV, fs('get_nb_vars'))
    inst = ctx.instance()
    for nm in ('get_var_lb', 'get_var_ub', 'get_var_type'):
        rep.eq(nm + '-shared', g(nm), ctx.fz(ctx.call(inst, nm)), fs(nm))
    rep.use(ctx)


@rule('C04', 'reload-leaves-no-stale-data')
def c04b(rep):
    """loading a second partition replaces every aggregate."""
    ctx, p = part_ctx(rep.prog)
    t = kv(L)
    other = sym('P0', ('L', ('L', 'int')), (sym('L0', 'int'), None))
    # a partition of the same shape with other scenarios
    k2 = kv(L, 'k2')
    j2 = kv(length(idx(PART, k2)), 'j2')
    alike = tab('L', L, k2, tab('L', length(idx(PART, k2)), j2,
                                app('other_scenario', 'int', k2, j2)))
    getters = (('get_nb_scenarios', ()), ('get_nb_constraints', (t,)), ('get_proba', ()),
               ('get_epsilon', ()), ('get_matrix_A', (t,)), ('get_vector_b', (t,)))
    for n0, P0 in ((sym('L0', 'int'), other), (L, alike)):
        ctx2 = Ctx(rep.prog)
        q = ctx2.partition_instance()
        ctx2.call(q, 'load_partition', n0, ctx2.box(P0))
        # whatever was read of the earlier partition is not read again later
        for gname, args in getters:
            ctx2.call(q, gname, *args)
        ctx2.call(q, 'load_partition', L, ctx2.box(PART))
        for gname, args in getters:
            a = ctx2.fz(ctx2.call(q, gname, *args))
            b = ctx.fz(ctx.call(p, gname, *args))
            rep.eq('reload-' + gname, a, b, fsite(rep.prog, 'PartitionChanceKnapInstance', gname))
        rep.use(ctx2)


# ------------------------------------------------------------------ C20 accurate split
@rule('C20', 'accurate-split-model')
def c20(rep):
    ctx = Ctx(rep.prog)
    inst = ctx.instance()
    S = sym('S', ('L', 'int'))
    inf = sym('inf', ('L', 'int'))

    def run():
        m = ctx.new('AccObjModel', inst, ctx.box(S), ctx.box(inf))
        ctx.call(m, 'build')
        return m
    m, code = take(ctx, run)
    _, ref = spec(ctx, 'models', 'accurate', S, inf, NV, M, AA, BB, CC)
    rep.traces('accurate-split-model', code, ref, fsite(rep.prog, 'AccObjModel', 'build'))
    r = ctx.fz(ctx.call(m, 'get_subsets'))
    site = fsite(rep.prog, 'AccObjModel', 'get_subsets')
    rep.use(ctx)
    if r.op != 'lit' or len(r.a) != 3 or any(x.op != 'ftab' for x in r.a[1:]):
        return rep.und('assignment-readback', site, str(r))
    k = kv(length(S))
    conds, bodies = [], []
    for x in r.a[1:]:
        w, n, c, b = tm.opn(x)
        conds.append(subst(c, {w: k}))
        bodies.append(subst(b, {w: k}))
        rep.eq('assignment-readback-range', n, length(S), site)
        rep.eq('assignment-readback-elements', bodies[-1], idx(S, k), site)
    xs = []
    for c in conds:
        for x in tm.walk(c):
            if x.op == 'app' and x.a[0] == 'X' and x not in xs:
                xs.append(x)
    # the binary assignment variable takes the values 0 and 1 only, and exactly one side is 1
    pis = [e.args[0] for e in canon(code) if e.kind == 'gvars' and not e.bounds and
           typ(e.args[1]) and length(e.args[1]) is length(S)]
    res = []
    for v in (0, 1):
        mp = {}
        for x in xs:
            g = x.a[2].a[2] if x.a[2].op == 'app' else None
            if g is None or g not in pis:
                return rep.bad('assignment-readback', site,
                               'the split is not read from an assignment variable')
            mp[x] = num(v if g is pis[0] else 1 - v)
        ev = []
        for c in conds:
            ev.append(tm.mapterm(c, lambda y: mp.get(y, y)))
        res.append(ev)
    if any(c.op != 'b' for ev in res for c in ev):
        return rep.und('assignment-readback', site, str(res))
    good = all((a is TRUE) != (b is TRUE) for a, b in res) and res[0][0] is not res[1][0]
    rep.holds('assignment-readback', good, site,
              'a scenario assigned to one side is not returned in exactly that subset: %s' % res)
