"""C28: instance files are read back as they were generated."""
import os
from .common import *
from .adaptive import bool3
from .results import plain, read_batch
from ..evalt import joint
from ..facts import replace


def well_formed(n=4):
    """a random well-formed instance file."""
    def rows(ev, a):
        r = ev.rng('file')
        nv, m, ns = r.randint(1, n), r.randint(1, 3), r.randint(1, 4)
        w = lambda: tm.Fraction(r.randint(0, 900000), 10000)
        out = [(nv, m, ns), tuple(w() for _ in range(nv))]
        out += [tuple(w() for _ in range(nv)) for _ in range(ns*m)]
        out.append(tuple(w() for _ in range(m)))
        return tuple(out)
    return rows


@rule('C28', 'instance-read')
def c28_read(rep):
    ctx = Ctx(rep.prog)
    o, eff = take(ctx, ctx.raw_instance)
    rep.use(ctx)
    site = fsite(rep.prog, 'ChanceKnapInstance', '__init__')
    rep.sites += len(eff)
    files = [e for e in eff if e.kind == 'open']
    rep.holds('one-file-read', bool3(len(files) == 1 and files[0].args[0] is FILE and
                                     files[0].args[1].op == 's' and
                                     files[0].args[1].a[0] in ('r', 'rt'),
                                     *[a for e in files for a in e.args[:2]]),
              files[0].site if files else site,
              'the instance is not read from the given file: %s' % [
                  tm.show(e.args[0]) for e in files])
    rows = None
    seen = set()
    for v in ctx.fields(o).values():
        for x in tm.walk(ctx.fz(v), seen):
            if x.op == 'app' and str(x.a[0]).startswith('csvrows'):
                rows = x if rows in (None, x) else False
    if not rows:
        return rep.und('rows-read', site)
    if rows.a[0] != 'csvrows':
        return rep.bad('rows-read', site, 'the fields are not separated by commas')
    if typ(rows) != ('L', ('L', 'num')):
        return rep.holds('rows-read', None, site, 'the fields are read as text')
    app_ = {'csvrows': well_formed()}

    def sp(fn, *args):
        return ctx.fz(spec(ctx, 'files', fn, *args)[0])
    ns, m, nv = sp('scenarios', rows), sp('constraints', rows), sp('items', rows)
    s, i, j = kv(ns, 's'), kv(m, 'i'), kv(nv, 'j')
    at = {'get_vector_c': (j,), 'get_matrices_A': (s, i, j), 'get_vectors_b': (s, i),
          'get_proba': (s,), 'get_var_type': (j,), 'get_var_lb': (j,), 'get_var_ub': (j,)}
    want = {'get_nb_vars': nv, 'get_nb_scenarios': ns, 'get_vector_c': sp('parsed_c', rows, j),
            'get_matrices_A': sp('parsed_a', rows, s, i, j),
            'get_vectors_b': sp('parsed_b', rows, i), 'get_proba': div(num(1), ns),
            'get_epsilon': EPS, 'get_var_type': CONT}

    def get(g, *args):
        return ctx.fz(ctx.call(o, g, *args))
    with joint({}, app_):
        for g, w in want.items():
            v = get(g)
            dims = []
            for x in at.get(g, ()):
                dims.append(length(v))
                v = idx(v, x)
            rep.eq(g, plain(v), plain(w), fsite(rep.prog, 'ChanceInstance', g))
            full = [ns, m, nv] if len(at.get(g, ())) == 3 else \
                [ns, m] if g == 'get_vectors_b' else [ns] if g == 'get_proba' else [nv]
            for d, (l, f) in enumerate(zip(dims, full)):
                if l.op == 'len':
                    continue
                l = replace(l, length(rows), add(num(3), mul(ns, m)))
                rep.eq('%s-size-%s' % (g, d), l, f, fsite(rep.prog, 'ChanceInstance', g))
        for g, ix, w in (('get_nb_constraints', (), m), ('get_matrix_A', (i, j),
                                                         want['get_matrices_A']),
                         ('get_vector_b', (i,), want['get_vectors_b'])):
            v = get(g, s)
            for x in ix:
                v = idx(v, x)
            rep.eq(g, plain(v), plain(w), fsite(rep.prog, 'ChanceInstance', g))
        lo, hi = [idx(get(g), j) for g in ('get_var_lb', 'get_var_ub')]
        rep.eq('continuous-variables-lower-bound', subst(lo, {CONT: TRUE}), num(0),
               fsite(rep.prog, 'ChanceInstance', 'get_var_lb'))
        rep.eq('continuous-variables-upper-bound', subst(hi, {CONT: TRUE}), num(1),
               fsite(rep.prog, 'ChanceInstance', 'get_var_ub'))
        # the bounds of a binary variable leave both of its values
        b0, b1 = subst(lo, {CONT: FALSE}), subst(hi, {CONT: FALSE})
        rep.holds('binary-variables-lower-bound', bool3(conj(le(b0, num(0))) is TRUE, b0),
                  fsite(rep.prog, 'ChanceInstance', 'get_var_lb'), tm.show(b0))
        rep.holds('binary-variables-upper-bound', bool3(conj(le(num(1), b1)) is TRUE, b1),
                  fsite(rep.prog, 'ChanceInstance', 'get_var_ub'), tm.show(b1))


GEN = 'instance-generator'


@rule('C28', 'instance-generated')
def c28_generate(rep):
    mod = [m for m in rep.prog.modules.values() if m.name.split('.')[-1] == GEN]
    if not mod:
        raise Anchor('instance-generator.py')
    mod = mod[0]
    site = (mod.path, 1, 'instance-generator')
    ctx = Ctx(rep.prog)
    I, st = ctx.I, ctx.st
    orf, a1, a2 = sym('orlib', 'str'), sym('nscen', 'str'), sym('ninst', 'str')
    st.env['__name__'] = const('__main__')
    st.fr = type(st.fr)(None, mod, None)
    I.extvals['sys.argv'] = lit('L', const('g.py'), orf, a1, a2)
    mark = len(I.trace)
    I.exec_block(mod.tree.body, st)
    eff = I.trace[mark:]
    rep.use(ctx)
    rep.sites += len(eff)

    def sp(fn, *args):
        return ctx.fz(spec(ctx, 'files', fn, *args)[0])
    out = [e for e in eff if e.kind in ('open', 'csvrow', 'csvrows')]
    seen = set()
    rows = None
    for e in out:
        for a in e.args:
            for x in tm.walk(a, seen):
                if x.op == 'app' and str(x.a[0]).startswith('csvrows') and x.a[-1] is orf:
                    rows = x if rows in (None, x) else False
    if not rows:
        return rep.und('original-data-read', site)
    rep.holds('original-data-separator', "' '" in rows.a[0] or None, site)
    opened = [e for e in out if e.kind == 'open' and e.args[0] is not orf]
    if len(opened) != 1 or len(opened[0].qs) != 1 or opened[0].g is not TRUE:
        return rep.und('one-file-per-instance', opened[0].site if opened else site)
    q, nq = opened[0].qs[0]
    path, mode = opened[0].args[:2]
    rep.eq('number-of-instances', nq, sp('number', a2), opened[0].site)
    rep.eq('file-name', path, sp('name', rows, a1, add(q, num(1))), opened[0].site)
    rep.holds('file-mode', bool3(mode.op == 's' and mode.a[0] in ('w', 'wt', 'x'), mode),
              opened[0].site, tm.show(mode))
    ns, m, nv = sp('number', a1), sp('constraints', rows), sp('items', rows)
    blocks = []
    for e in out[out.index(opened[0]) + 1:]:
        if e.kind == 'open':
            continue
        if not e.qs or e.kind == 'csvrows' or e.g is not TRUE or len(e.qs[0:1]) != 1:
            return rep.und('rows', e.site)
        b = {e.qs[0][0]: q}
        if e.args[0].op == 'lit':
            rep.bad('separator', e.site, 'the fields are not separated by commas')
        p = subst(e.args[0] if e.args[0].op != 'lit' else e.args[0].a[1], b)
        rep.holds('rows-in-file-of-the-instance', bool3(p is path, p), e.site)
        r = subst(e.args[1], b)
        r = replace_len(r, rows)
        blocks.append((e, [(k, replace_len(subst(n, b), rows)) for k, n in e.qs[1:]], r))

    def size(name, r, n, e):
        l = length(r)
        if l.op == 'len' or l is n:
            return rep.ok(name, e.site)
        rep.eq(name, l, n, e.site)
    want = [('header', 0), ('profits', 0), ('weights', 2), ('capacities', 0)]
    if len(blocks) != len(want) or any(len(b[1]) != d for b, (_, d) in zip(blocks, want)):
        full = not any(is_soft(b[2]) for b in blocks) and (
            len(blocks) < 4 or sorted(len(b[1]) for b in blocks) == [0, 0, 0, 2])
        return rep.holds('rows', False if full else None, site, 'the rows of the file are not '
                         'header, profits, weights of each scenario and constraint, capacities')
    (e0, _, h), (e1, _, c), (e2, q2, w), (e3, _, b) = blocks
    size('header-size', h, num(3), e0)
    for p, (nm, v) in enumerate((('items', nv), ('constraints', m), ('scenarios', ns))):
        rep.eq('header-' + nm, idx(h, num(p)), v, e0.site)
    j = kv(nv, 'j')
    rep.eq('profits', idx(c, j), sp('profit', rows, j), e1.site)
    size('profits-size', c, nv, e1)
    i = kv(m, 'i')
    rep.eq('capacities', idx(b, i), sp('capacity', rows, i), e3.site)
    size('capacities-size', b, m, e3)
    (ks, n1), (ki, n2) = q2
    rep.eq('scenarios-written', n1, ns, e2.site)
    rep.eq('constraints-written', n2, m, e2.site)
    size('weights-size', w, nv, e2)
    s = kv(ns, 's')
    x = idx(subst(w, {ks: s, ki: i}), j)
    draws = [y for y in tm.walk(x) if y.op == 'app' and str(y.a[0]).startswith('rnd:')]
    norm = {y for y in draws if y.a[0] == 'rnd:normal'}
    fail = {y for y in draws if y.a[0] == 'rnd:binomial'}
    if not draws and not is_soft(x) and not any(y.op == 'app' for y in tm.walk(x)):
        return rep.bad('weights', e2.site, 'the weights written do not depend on any draw: %s' %
                       tm.show(x, 5))
    if len(norm) != 1 or len(fail) != 1 or is_soft(x):
        return rep.und('weights', e2.site, tm.show(x, 5))
    y, f = norm.pop(), fail.pop()
    _, mean, dev = y.a[2:5]
    rep.eq('weights-mean', mean, sp('weight', rows, i, j), e2.site)
    rep.eq('weights-deviation', dev, sp('spread', rows, i, j), e2.site)
    vs = frozenset((s, i, j, q))
    got = frozenset(v for a in y.a[5:] for v in a.fv)
    rep.holds('weights-drawn-separately', vs <= got, e2.site,
              'the same draw is used for different weights')
    got = frozenset(v for a in f.a[5:] for v in a.fv)
    rep.holds('failures-drawn-per-scenario-and-item', frozenset((s, j, q)) <= got and
              i not in got, e2.site, 'a failure is drawn over %s' % sorted(
                  tm.show(v) for v in got))
    _, cnt, p = f.a[2:5]
    rep.eq('failures-drawn-once', cnt, num(1), e2.site)
    ex = {z for z in tm.walk(p) if z.op == 'app' and str(z.a[0]) == 'rnd:exponential'}
    if len(ex) == 1:
        z = ex.pop()
        zz = sym('z', 'num')
        pz = tm.mapterm(p, lambda t: zz if t is z else t)
        ways = [sp(w, zz) for w in ('clipped', 'clipped2', 'clipped3')]
        rep.eq('failure-probability', pz, ([w for w in ways if verdict(pz, w) == 'ok'] + ways)[0],
               e2.site)
        got = frozenset(v for a in z.a[4:] for v in a.fv)
        rep.holds('failure-probability-per-item', j in got and s not in got and i not in got,
                  e2.site)
    else:
        rep.und('failure-probability', e2.site)
    X, F = sym('draw', 'num'), sym('fails', 'int')
    v = tm.mapterm(x, lambda t: X if t is y else F if t is f else t)
    evalt_gen = {F: lambda ev: ev.rng('fails').randint(0, 1)}
    with joint(evalt_gen, {}):
        rep.eq('weights', v, sp('sampled', X, F), e2.site)


GENDIR = 'data/cc-instances/knapsack'


@rule('C28', 'instances-of-the-batch')
def c28_batch(rep):
    """the generation script makes every instance file that the experiments are run on."""
    root = rep.prog.root
    name = os.path.join(GENDIR, 'generate-all-instances.sh')
    nm = 'every-instance-run-is-generated'
    g = read_batch(root, name, GEN + '.py')
    b = read_batch(root)
    if not g or not b:
        return rep.und(nm, name, 'a script is not understood')
    made = {}
    for args, ln, runs_ in g:
        site = '%s:%d' % (name, ln)
        rep.sites += 1
        rep.holds('generator-arguments', True if len(args) == 3 else None if len(args) > 3 else
                  False, site, 'the generator reads three arguments, %d are given' % len(args))
        if len(args) != 3:
            return
        for what, ws in (('scenarios', args[1]), ('instances', args[2])):
            bad = [w for w in ws if not w.isdigit() or int(w) < 1]
            rep.holds('generator-number-of-' + what, not bad, site,
                      'the number of %s can be %s' % (what, bad[:2]))
            if bad:
                return
        for f, s, q in runs_:
            path = os.path.normpath(os.path.join(root, GENDIR, f))
            try:
                head = open(path).readline().split()
                dims = int(head[0]), int(head[1])
            except (OSError, ValueError, IndexError):
                rep.bad('original-data-exists', site, 'the generator reads %s' % f)
                continue
            for i in range(1, int(q) + 1):
                n = 'ccmknap-%d-%d-%d-%d.csv' % (dims + (int(s), i))
                o = made.setdefault(n, (f, s))
                if o != (f, s):
                    rep.bad('one-instance-per-name', site, '%s is written from %s and '
                            'again from %s' % (n, o[0], f))
    rep.ok('original-data-exists', name)
    want = {os.path.normpath(f) for args, _, _ in b for f in args[0]}
    have = {os.path.join(GENDIR, n) for n in made}
    d = sorted(want - have)
    rep.holds(nm, not d, name, '%d instance files are run but never generated: %s' % (
        len(d), d[:3]))


def replace_len(t, rows):
    """the header of the original data holds three numbers."""
    l = length(idx(rows, num(0)))
    return tm.mapterm(t, lambda x: num(3) if x is l else x)
