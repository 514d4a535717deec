"""C24-C29: interruption, result files, command line, reproducibility, instance files, traces."""
import ast
import copy
import itertools
import os
import re
from .common import *
from .. import shfront
from ..lib import recorder, fresh
from .adaptive import (solver_ctx, Loop, NoLoop, loop_of, loop_site, joint, pairs, apps, is_app,
                       is_stub, bool3, soft_any, getf, setf, names_of)
from .run import TL, GAP, FINDER

AFILE, AOUT, AEPS = sym('arg_file', 'str'), sym('arg_out', 'str'), sym('arg_eps', 'str')
STEM = sym('stem', 'str')


def through(I, qual, name):
    """record the call, then analyse the real function."""
    def h(I, f, env, st, node):
        names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args +
                 f.node.args.kwonlyargs if a.arg != 'self']
        I.eff('call:' + name, [I.freeze(I.D(env[a], st), st) for a in names if a in env], st, node)
        I.stubs.pop(qual, None)
        try:
            return I.call_func(f, [env['self']] if 'self' in env else [],
                               {a: env[a] for a in names if a in env}, st, node,
                               selfv=env.get('self'))
        finally:
            I.stubs[qual] = h
    I.stubs[qual] = h


def run_main(prog, method, cont, prep=None):
    """abstract run of the command-line script."""
    mod = prog.modules.get('main')
    if mod is None:
        raise Anchor('main.py')
    ctx, _ = solver_ctx(prog, make=False)
    I = ctx.I
    inst = ctx.instance()
    rec = I.stubs
    if cont in (0, 1) and method is not None:
        I.extvals['sys.argv'] = lit('L', const('main.py'), AFILE, const(str(cont)), AEPS,
                                    const(str(method)), AOUT)
    fl = dict(ctx.fields(inst))

    def make(I, f, env, st, node):
        names = [a.arg for a in f.node.args.args if a.arg != 'self']
        I.eff('call:instance', [I.freeze(I.D(env[a], st), st) for a in names if a in env], st,
              node)
        h = st.heap[env['self'].a[0]]
        st.heap[env['self'].a[0]] = ('obj', h[1], dict(fl))
        return NONE
    rec['ChanceKnapInstance.__init__'] = make
    rec['ChanceKnapInstance.get_file_name'] = lambda I, f, e, st, n: STEM
    rec['ChanceInstance.get_file_name'] = rec['ChanceKnapInstance.get_file_name']
    for c in ('MilpSolver', 'AdaptivePartitioner'):
        f = prog.method(cls(prog, c), 'solve')
        rec[c + '.solve'] = recorder('solve_' + c, lambda I, e, st: NONE)
        rec[c + '.write_all_computation_details'] = recorder('write_details',
                                                             lambda I, e, st: NONE)
        through(I, c + '.__init__', 'init_' + c)
    rec['AdaptivePartitioner.write_iteration_details'] = recorder('write_iter',
                                                                  lambda I, e, st: NONE)
    rec['TimeManager.set_final_time'] = recorder('set_final', lambda I, e, st: NONE)
    rec['BigMFinder.__init__'] = recorder('finder', lambda I, e, st: NONE)
    if prep is not None:
        prep(I)
    st = ctx.st
    st.env['__name__'] = const('__main__')
    st.fr = type(st.fr)(None, mod, None)
    m = len(I.trace)
    o = I.exec_block(mod.tree.body, st)
    eff = I.trace[m:]
    ctx.st = o.next or st
    return ctx, eff, o, (mod.path, 1, 'main')


def argmap(prog, cname, m, e):
    f = method(prog, cls(prog, cname), m)
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if x.arg != 'self']
    return dict(zip(names, e.args))


def obj_class(ctx, t):
    t = tm.nokind(t)
    if t.op == 'ref':
        h = ctx.st.heap.get(t.a[0])
        if h is not None and h[0] == 'obj':
            return h[1].name
    return None


CLI = {1: ('MilpSolver', dict(use_big_m=TRUE, big_m_method=const('song'), save_bounds=TRUE), {}),
       2: ('MilpSolver', dict(use_big_m=TRUE, big_m_method=const('belotti'), save_bounds=TRUE),
           {}),
       3: ('AdaptivePartitioner', dict(use_merger=FALSE, use_big_M=TRUE,
                                       big_m_method=const('belotti')),
           dict(initial_partition_type=const('random'), split_method=const('random'),
                projection_method=const('rescaled_max_violation'))),
       4: ('AdaptivePartitioner', dict(use_merger=TRUE, use_big_M=TRUE,
                                       big_m_method=const('belotti')),
           dict(initial_partition_type=const('cost'), split_method=const('cost'),
                use_acc_obj=TRUE, projection_method=const('rescaled_max_violation')))}


def truthy(t, want):
    """0/1 and False/True are interchangeable option values."""
    t = tm.nokind(t)
    if t.op == 'n':
        t = TRUE if t.a[0] != 0 else FALSE
    return t is want


def same_ref(a, b):
    a, b = tm.nokind(a), tm.nokind(b)
    return a.op == 'ref' and b.op == 'ref' and a.a[0] == b.a[0]


def broken_calls(rep, nm, eff, site):
    n = 0
    for e in eff:
        if e.kind in ('sig_error', 'type_error', 'attr_undef', 'undef_name', 'maybe_undef', 'missing_method',
                      'key_error') and e.g is not FALSE:
            n += 1
            rep.holds(nm, bool3(False, e.g), e.site, '%s (%s)' % (
                {'sig_error': 'the call does not fit the called function',
                 'type_error': 'the operation is not defined for these types',
                 'attr_undef': 'an attribute is read that does not exist',
                 'maybe_undef': 'a name may be undefined here'}.get(e.kind, e.kind),
                ', '.join(tm.show(a, 3) for a in e.args)))
    if not n:
        rep.ok(nm, site)


@rule('C26', 'command-line')
def c26_cli(rep):
    for meth in (1, 2, 3, 4):
        for cont in (0, 1):
            ctx, eff, o, site = run_main(rep.prog, meth, cont)
            rep.use(ctx)
            tag = 'method-%d' % meth
            cname, want, iwant = CLI[meth]
            rep.sites += len(eff)
            broken_calls(rep, tag + '-calls-fit', eff, site)
            inst = [e for e in eff if e.kind == 'call:instance']
            if not inst:
                rep.und(tag + '-instance', site)
                continue
            e = inst[0]
            a = argmap(rep.prog, 'ChanceKnapInstance', '__init__', e)
            vals = [tm.nokind(x) for x in e.args]
            ok = len(vals) == 3 and vals[0] is AFILE and truthy(vals[1], TRUE if cont else FALSE) \
                and vals[2] is app('float', 'num', AEPS)
            rep.holds(tag + '-instance', bool3(ok, *vals), e.site,
                      'the instance is made from (%s) for arguments file, %d, epsilon' % (
                          ', '.join(tm.show(x) for x in vals), cont))
            others = [x for x in eff if x.kind.startswith('call:solve_') and x.g is not FALSE]
            sol = [x for x in others if x.kind == 'call:solve_' + cname]
            if not others:
                rep.bad(tag + '-solver', site, 'method %d solves nothing' % meth)
                continue
            for x in others:
                if x not in sol:
                    rep.holds(tag + '-solver', bool3(False, x.g), x.site,
                              'method %d runs %s' % (meth, x.kind[11:]))
            if len(sol) != 1 or sol[0].g is not TRUE or len(others) > 1:
                rep.holds(tag + '-solver-once', bool3(False, *[x.g for x in others]),
                          others[0].site, 'method %d runs a solver %d times or conditionally' % (
                              meth, len(others)))
                if len(sol) != 1:
                    continue
            rep.ok(tag + '-solver', site)
            e = sol[0]
            at = eff.index(e)
            a = argmap(rep.prog, cname, 'solve', e)
            for k_, v in want.items():
                if k_ not in a:
                    rep.und('%s-option-%s' % (tag, k_), e.site)
                    continue
                ok = truthy(a[k_], v) if v in (TRUE, FALSE) else tm.nokind(a[k_]) is v
                rep.holds('%s-option-%s' % (tag, k_), bool3(ok, a[k_]), e.site,
                          'method %d is run with %s = %s' % (meth, k_, tm.show(a[k_])))
            init = [x for x in eff[:at] if x.kind == 'call:init_' + cname]
            names = (rep.prog, cname, '__init__')
            if len(init) != 1:
                rep.und(tag + '-solver-options', site)
            for x in init:
                a2 = argmap(*names, x)
                first = tm.nokind(x.args[0])
                rep.holds(tag + '-solver-instance', bool3(obj_class(ctx, first) ==
                                                          'ChanceKnapInstance', first), x.site,
                          'the solver is given %s' % tm.show(first))
                for k_, v in dict(iwant, time_limit=num(3600), gap=num(1e-4)).items():
                    if k_ not in a2:
                        rep.und('%s-option-%s' % (tag, k_), x.site)
                        continue
                    ok = truthy(a2[k_], v) if v in (TRUE, FALSE) else tm.nokind(a2[k_]) is v
                    rep.holds('%s-option-%s' % (tag, k_), bool3(ok, a2[k_]), x.site,
                              'method %d is run with %s = %s' % (meth, k_, tm.show(a2[k_])))
            name, _ = spec(ctx, 'run', 'output_name', AOUT, STEM, app('float', 'num', AEPS),
                           num(cont), num(meth))
            tname, _ = spec(ctx, 'run', 'trace_name', AOUT, STEM, app('float', 'num', AEPS),
                            num(cont), num(meth))
            if cname == 'AdaptivePartitioner':
                fi = [x for x in eff[:at] if x.kind == 'call:finder' and
                      'ChanceKnapInstance' in str(obj_class(ctx, x.args[0]))]
                g = tm.nokind(e.args[0])
                if obj_class(ctx, g) == 'BigMFinder':
                    own = [x for x in fi if obj_class(ctx, x.args[0]) ==
                           'PartitionChanceKnapInstance']
                    last = fi[-1] if fi else None
                    rep.holds(tag + '-finder', True if own and last in own else
                              (None if last is None else False), e.site,
                              'the big-M finder does not work on the partition of the solver')
                else:
                    rep.holds(tag + '-finder', None, e.site)
                al = [(i, x) for i, x in enumerate(eff) if x.kind == 'alarm' and i < at]
                last = al[-1][1] if al else None
                rep.holds(tag + '-alarm', bool3(last is not None and last.g is TRUE and
                                                tm.nokind(last.args[0]) is num(3600),
                                                *([last.g, last.args[0]] if last else [])),
                          last.site if last else site,
                          'the time-out alarm of 3600 s is not set before the adaptive method '
                          'starts')
            elif 'path' in a:
                rep.eq(tag + '-trace-file', tm.nokind(a['path']), tname, e.site)
            wr = [(i, x) for i, x in enumerate(eff) if x.kind == 'call:write_details' and
                  x.g is not FALSE]
            rep.holds(tag + '-result-written', True if len(wr) == 1 and wr[0][1].g is TRUE and
                      wr[0][0] > at else bool3(False, *[x.g for _, x in wr]), site,
                      'the result file is not written exactly once after solving')
            fin = [i for i, x in enumerate(eff) if x.kind == 'call:set_final' and x.g is TRUE]
            for i, x in wr:
                rep.eq(tag + '-result-file', tm.nokind(x.args[0]), name, x.site)
                rep.holds(tag + '-final-time', True if any(at < j < i for j in fin) else False,
                          x.site, 'the final time is not taken between solving and writing')
            it = [(i, x) for i, x in enumerate(eff) if x.kind == 'call:write_iter' and
                  x.g is not FALSE]
            if cname == 'AdaptivePartitioner':
                rep.holds(tag + '-iterations-written', True if len(it) == 1 and
                          it[0][1].g is TRUE and it[0][0] > at else
                          bool3(False, *[x.g for _, x in it]), site,
                          'the iteration file is not written exactly once after solving')
                for i, x in it:
                    rep.eq(tag + '-iteration-file', tm.nokind(x.args[0]), tname, x.site)
            mk_ = [e for e in eff if e.kind in ('ext:os.makedirs', 'ext:os.mkdir')]
            ok = False
            for x in mk_:
                g = nt(x.g)
                ex = app('os.path.exists', 'any', AOUT)
                if tm.nokind(x.args[0]) is AOUT and (x.g is TRUE or any(
                        y.op == 'app' and y.a[0] in ('os.path.exists', 'os.path.isdir')
                        for y in tm.walk(x.g))):
                    ok = True
            rep.holds(tag + '-output-folder', True if ok else bool3(
                not mk_, *[x.args[0] for x in mk_]) and None, site,
                'the output folder given is not created')


# ------------------------------------------------------------------ the batch script
def read_batch(root, name='run_all_experiments.sh', script='main.py'):
    """[(values of each argument after the script, line, argument tuples)] of a batch script;
    None if it is not understood."""
    path = os.path.join(root, name)
    try:
        text = open(path, encoding='utf-8').read()
    except OSError:
        raise Anchor(name)
    rs = shfront.runs(text)
    if rs is None:
        return None
    by = {}
    for ws, ln in rs:
        while ws and re.match(r'^-[uOBEsI]+$', ws[0]):
            ws = ws[1:]
        if ws and ws[0].split('/')[-1] == script:
            by.setdefault((ln, len(ws)), []).append(tuple(ws[1:]))
    return [([sorted(set(x), key=x.index) for x in zip(*ts)], ln, ts)
            for (ln, _), ts in by.items()]


@rule('C26', 'batch-script')
def c26_batch(rep):
    name = 'run_all_experiments.sh'
    r = read_batch(rep.prog.root)
    if not r:
        return rep.und('batch-arguments', name, 'no call of main.py understood in the script')
    for args, ln, _ in r:
        site = '%s:%d' % (name, ln)
        rep.sites += 1
        if len(args) < 5:
            rep.bad('batch-arguments', site, 'main.py reads five arguments, %d are given' %
                    len(args))
            continue

        def ok(i, pred, what):
            w = [x for x in args[i] if not pred(x)]
            rep.holds('batch-' + what, True if not w and args[i] else False, site,
                      'argument %d (%s) can be %s' % (i + 1, what, w[:3]))

        def isfloat(x):
            try:
                return 0 <= float(x) < 1
            except ValueError:
                return False
        ok(0, lambda x: re.search(r'ccmknap-\d+-\d+-\d+-\d+\.csv$', x) is not None,
           'instance-file')
        ok(1, lambda x: x in ('0', '1'), 'variable-type')
        ok(2, isfloat, 'tolerance')
        ok(3, lambda x: x in ('1', '2', '3', '4'), 'method')
        ok(4, lambda x: x.endswith('/') and 'results' in x, 'output-folder')
        for i, what, want in ((1, 'variable-type', '01'), (3, 'method', '1234')):
            rep.holds('batch-every-' + what, True if set(want) <= set(args[i]) else False, site,
                      'the script only runs %s %s' % (what, sorted(set(args[i]))))


# ------------------------------------------------------------------ C25 result rows
SYM = {k_: sym('r_' + k_, 'num') for k_ in ('vLB', 'vUB', 'gap', 'time', 'big_m_time')}
SYM['iteration'] = sym('r_iteration', 'int')
SYM['subsets'] = sym('r_subsets', 'int')
BIGSYM = sym('r_use_big_m', 'bool')


def plain(t):
    """the number shown in a cell: formatting with at least three decimals is the identity."""
    t = tm.nokind(t)
    if t.op == 'fmt':
        m = re.match(r'^\.(\d+)f$', t.a[0])
        if m and int(m.group(1)) >= 3:
            return plain(t.a[1])
        return t
    if t.op == 'str':
        return plain(t.a[0])
    if t.op == 'ite':
        a, b = plain(t.a[1]), plain(t.a[2])
        return ite(t.a[0], a, b)
    return tm.asnum(t) if typ(t) == 'bool' else t


def written_row(rep, ctx, s, cname, tag):
    """the cells of the row written by a solver; None when not found."""
    I = ctx.I
    for c in ('ChanceKnapInstance', 'ChanceInstance'):
        I.stubs[c + '.get_file_name'] = lambda I, f, e, st, n: STEM
    I.stubs['PartitionChanceKnapInstance.get_nb_scenarios'] = \
        lambda I, f, e, st, n: SYM['subsets']
    for c in (cname, 'Solver'):
        I.stubs[c + '._compute_gap'] = lambda I, f, e, st, n: SYM['gap']
    I.stubs['TimeManager.get_total_time'] = lambda I, f, e, st, n: SYM['time']
    out = sym('out', 'str')
    known = tm.UNKNOWNS[0]
    _, eff = take(ctx, lambda: ctx.call(s, 'write_all_computation_details', out))
    known = known == tm.UNKNOWNS[0]
    site = fsite(rep.prog, cname, 'write_all_computation_details')
    broken_calls(rep, tag + '-row-can-be-written', eff, site)
    rows = [e for e in eff if e.kind in ('csvrow', 'csvrows')]
    op = [e for e in eff if e.kind == 'open']
    rep.sites += len(rows)
    for e in op:
        rep.holds(tag + '-file', bool3(tm.nokind(e.args[0]) is out and e.args[1].op == 's' and
                                       'w' in e.args[1].a[0], *e.args[:2]), e.site,
                  'the file %s is opened with mode %s' % (tm.show(e.args[0]),
                                                          tm.show(e.args[1])))
    if len(rows) != 1 or rows[0].kind != 'csvrow' or rows[0].qs:
        # no row at all is a definite error unless something unknown might write it
        soft = any(is_soft(a) for e in rows for a in e.args) if rows else not known
        rep.holds(tag + '-one-row', None if soft else False, site,
                  '%d rows are written' % len(rows))
        return None, site
    e = rows[0]
    rep.holds(tag + '-one-row', bool3(e.g is TRUE, e.g), e.site, 'the row is written only if %s' %
              tm.show(e.g))
    r = tm.nokind(e.args[1])
    if r.op != 'lit':
        rep.und(tag + '-row', e.site, 'the row is not a list of known length')
        return None, site
    return list(r.a[1:]), e.site


def compare_row(rep, tag, cells, want, names, site):
    if len(cells) != len(want):
        # a missing or an additional column
        rep.holds(tag + '-row', bool3(False, *cells), site, '%d cells are written instead of %d: '
                  '%s' % (len(cells), len(want), ', '.join(tm.show(c, 3) for c in cells)[:300]))
        return
    for c, w, n in zip(cells, want, names):
        rep.eq('%s-cell-%s' % (tag, n), plain(c), plain(w), site)
    for c, n in list(zip(cells, names))[1:]:
        p = plain(c)
        rep.holds(tag + '-cell-is-a-number', bool3(typ(p) in ('num', 'int', 'bool'), p) if
                  typ(p) in ('num', 'int', 'bool', 'str', None) else None, site,
                  'cell %s is %s, not a number' % (n, tm.show(p)))


ROWA = ['name', 'variables', 'rows', 'scenarios', 'type', 'tolerance', 'limit', 'gap-limit',
        'big-M', 'code-1', 'code-2', 'code-3', 'iteration', 'subsets', 'time', 'lower-bound',
        'upper-bound', 'gap']
ROWM = ROWA[:9] + ['big-M-method', 'big-M-time'] + ROWA[14:]


def adaptive_cells(rep, quiet=False):
    ctx, s = solver_ctx(rep.prog, run=False)
    lim, gp = sym('T', 'num'), sym('gap', 'num')
    codes = lit('L', *[num(i) for i in (1, 2, 3)])
    ctx.I.stubs['Informer.adaptive_details'] = lambda I, f, e, st, n: I.box(codes, st)
    for k_, v in (('use_big_M', BIGSYM), ('vLB', SYM['vLB']), ('vUB', SYM['vUB']),
                  ('iteration', SYM['iteration'])):
        ctx.setfield(s, k_, v)
    cells, site = written_row(type(rep)(rep.prop, rep.prog) if quiet else rep, ctx, s,
                              'AdaptivePartitioner', 'adaptive')
    w, _ = spec(ctx, 'run', 'adaptive_row', STEM, NV, M, N, CONT, EPS, lim, gp, BIGSYM,
                ctx.box(codes), SYM['iteration'], SYM['subsets'], SYM['time'], SYM['vLB'],
                SYM['vUB'], SYM['gap'])
    want = list(ctx.fz(w).a[1:])
    rep.use(ctx)
    return cells, want, site


def milp_cells(rep, quiet=False):
    ctx = Ctx(rep.prog)
    inst = ctx.instance()
    s = ctx.new('MilpSolver', inst, time_limit=TL, gap=GAP)
    code = sym('r_code', 'int')
    for k_, v in (('use_big_M', tm.asnum(BIGSYM)), ('vLB', SYM['vLB']), ('vUB', SYM['vUB']),
                  ('big_m_method', code), ('big_m_time', SYM['big_m_time'])):
        ctx.setfield(s, k_, v)
    cells, site = written_row(type(rep)(rep.prop, rep.prog) if quiet else rep, ctx, s,
                              'MilpSolver', 'extended')
    w, _ = spec(ctx, 'run', 'milp_row', STEM, NV, M, N, CONT, EPS, TL, GAP, BIGSYM, code,
                SYM['big_m_time'], SYM['time'], SYM['vLB'], SYM['vUB'], SYM['gap'])
    want = list(ctx.fz(w).a[1:])
    rep.use(ctx)
    return cells, want, site


@rule('C25', 'written-rows')
def c25_rows(rep):
    cells, want, site = adaptive_cells(rep)
    if cells is not None:
        compare_row(rep, 'adaptive', cells, want, ROWA, site)
    cells, want, site = milp_cells(rep)
    if cells is not None:
        compare_row(rep, 'extended', cells, want, ROWM, site)


SPLITS, INITS = ('random', 'cost'), ('random', 'cost')
PROJS = ('counter', 'rescaled_max_violation')


@rule('C25', 'option-codes')
def c25_codes(rep):
    """every accepted combination of options can be written, with distinct codes."""
    seen, byopt = {}, {}
    site = fsite(rep.prog, 'Informer', 'adaptive_details')
    for sp in SPLITS:
        for ini in INITS:
            for pr in PROJS:
                ctx, s = solver_ctx(rep.prog, run=False, init=ini, method=sp,
                                    acc=TRUE if sp == 'cost' else FALSE)
                what = 'split %s, partition %s, projection %s' % (sp, ini, pr)
                ctx.setfield(s, 'projection_method', const(pr))
                for k_, v in (('use_big_M', TRUE),):
                    ctx.setfield(s, k_, v)
                try:
                    r2 = type(rep)(rep.prop, rep.prog)
                    cells, st = written_row(r2, ctx, s, 'AdaptivePartitioner', 'a')
                except tm_dead():
                    rep.bad('codes-for-every-option', site, 'no row can be written for ' + what)
                    continue
                rep.use(ctx)
                if any(o[1] == 'bad' for o in r2.obs):
                    rep.bad('codes-for-every-option', site, 'no row can be written for %s: %s' % (
                        what, [o[3] for o in r2.obs if o[1] == 'bad'][0]))
                    continue
                if cells is None or len(cells) != len(ROWA):
                    rep.und('codes-for-every-option', site)
                    continue
                cs = [plain(c) for c in cells[9:12]]
                rep.holds('codes-for-every-option', bool3(all(c.op == 'n' for c in cs), *cs),
                          site, 'the codes for %s are %s' % (what, [tm.show(c) for c in cs]))
                if all(c.op == 'n' for c in cs):
                    key = tuple(c.a[0] for c in cs)
                    o = seen.setdefault(key, what)
                    rep.holds('codes-tell-options-apart', o == what, site,
                              'the same codes %s stand for %s and %s' % (
                                  [str(c) for c in key], o, what))
                    byopt[(sp, ini, pr)] = key
    for i, what in enumerate(('split method', 'initial partition', 'projection rule')):
        cells = {}
        for o, key in byopt.items():
            cells.setdefault(o[i], set()).add(key[i])
        if cells:
            ok = all(len(v) == 1 for v in cells.values()) and \
                len(set(map(min, cells.values()))) == len(cells)
            rep.holds('code-of-each-option', ok, site, 'the cell for the %s does not tell it: %s'
                      % (what, {k_: sorted(map(str, v)) for k_, v in cells.items()}))
    # extended formulation
    seen = {}
    site = fsite(rep.prog, 'MilpSolver', 'solve')
    for big in (TRUE, FALSE):
        for m in ('naive', 'belotti', 'song'):
            ctx = Ctx(rep.prog)
            I = ctx.I
            inst = ctx.instance()
            s = ctx.new('MilpSolver', inst, time_limit=TL, gap=GAP)
            I.stubs['Solver.solve_cclp_model'] = I.stubs['MilpSolver.solve_cclp_model'] = \
                recorder('solve_cclp', lambda I, e, st: lit('U', NONE, NONE, SYM['vLB'],
                                                            SYM['vUB']))
            for q in ('run_belotti_et_al_big_M', 'run_song_et_al_big_m'):
                I.stubs['BigMFinder.' + q] = recorder(q, lambda I, e, st: NONE)
            I.stubs['Evaluator.get_all_single_scenario_costs'] = recorder(
                'costs', lambda I, e, st: I.box(fresh(I, 'scenario_costs', ('L', 'num'), st), st))
            I.stubs['UpperBounder.ahmed_et_al_bound'] = recorder(
                'bound', lambda I, e, st: fresh(I, 'quantile', 'num', st))
            what = 'big-M %s, method %s' % (tm.show(big), m)
            try:
                ctx.call(s, 'solve', use_big_m=big, big_m_method=const(m))
                r2 = type(rep)(rep.prop, rep.prog)
                cells, st = written_row(r2, ctx, s, 'MilpSolver', 'e')
            except tm_dead():
                rep.bad('codes-for-every-option', site, 'no row can be written for ' + what)
                continue
            rep.use(ctx)
            if any(o[1] == 'bad' for o in r2.obs):
                rep.bad('codes-for-every-option', site, 'no row can be written for %s: %s' % (
                    what, [o[3] for o in r2.obs if o[1] == 'bad'][0]))
                continue
            if cells is None or len(cells) != len(ROWM):
                rep.und('codes-for-every-option', site)
                continue
            cs = [plain(c) for c in cells[8:10]]
            rep.holds('codes-for-every-option', bool3(all(c.op == 'n' for c in cs), *cs), site,
                      'the codes for %s are %s' % (what, [tm.show(c) for c in cs]))
            if all(c.op == 'n' for c in cs):
                key = tuple(c.a[0] for c in cs)
                o = seen.setdefault(key, what)
                rep.holds('codes-tell-options-apart', o == what, site,
                          'the same codes %s stand for %s and %s' % ([str(c) for c in key], o,
                                                                     what))
                rep.eq('code-of-big-M-use', cs[0], tm.asnum(big), site)
            for c, v, n in ((cells[12], SYM['vLB'], 'lower'), (cells[13], SYM['vUB'], 'upper')):
                rep.holds('extended-bounds-of-the-solve', bool3(v in tm.walk(plain(c)), c), site,
                          'the %s bound in the row is %s, not that of the model solved' % (
                              n, tm.show(c)))
            t = plain(cells[10])
            if big is TRUE and m != 'naive':
                ok = any(is_app(x, 'now') for x in tm.walk(t))
                rep.holds('big-M-time-is-measured', bool3(ok, t), site,
                          'the time for the big-M values of method %s is %s' % (m, tm.show(t)))


def tm_dead():
    from ..interp import Dead
    return Dead


# ------------------------------------------------------------------ readers
def export_func(prog, name):
    m = prog.modules.get('src.export.format_results')
    f = m.defs.get(name) if m else None
    if f is None:
        raise Anchor('src/export/format_results.py:' + name)
    return f


def cellgen(ev, a):
    a = [x for x in a if not isinstance(x, (str, tuple))]
    r = ev.rng('cell%s' % (a,))
    return tm.Fraction(r.choice((0, 1, 5, 37, 120, 12345)), r.choice((1, 100, 1000)))


@rule('C25', 'name-and-row-read')
def c25_read(rep):
    ctx = Ctx(rep.prog)
    I = ctx.I
    f = export_func(rep.prog, 'read_single_experiment')
    site = (f.mod.path, f.node.lineno, f.qual)
    p, i, s, j, m = (sym('path', 'str'), sym('inst', 'str'), sym('scen', 'int'), sym('idx', 'int'),
                     sym('meth', 'int'))
    for cont in (0, 1):
        v, eff = take(ctx, lambda: ctx.fz(I.call_func(
            f, [p, i, s, j, EPS, num(cont), m], {}, ctx.st, None)))
        w, _ = spec(ctx, 'run', 'read_name', p, i, s, j, EPS, num(cont), m)
        op = [e for e in eff if e.kind == 'open']
        rep.sites += len(op)
        broken_calls(rep, 'result-can-be-read', eff, site)
        if not op:
            rep.und('name-read', site)
        for e in op:
            rep.eq('name-read', tm.nokind(e.args[0]), w, e.site)
        # the name of the instance is the name of its file without folder and extension
        cells = [x for x in tm.walk(v) if x.op == 'app' and x.a[0] == 'csvrows']
        if len(set(cells)) != 1:
            rep.und('row-read', site)
            continue
        row = idx(cells[0], num(0))
        for h, x in pairs([tm.nokind(v)], TRUE):
            x = x[0]
            if x.op == 'lit' and len(x.a) == 1:
                # no result: only if there is no file
                ok = any(y.op == 'app' and str(y.a[0]).startswith('exc@') or y.op == 'sym' and
                         'exc@' in str(y.a[0]) for y in tm.walk(h))
                rep.holds('only-missing-files-are-skipped', None if not ok and 'exc' in
                          tm.show(h) else ok, site, 'a result is dropped if %s' % tm.show(h))
                continue
            w, _ = spec(ctx, 'run', 'read_cells', row)
            rep.eq('other-cells-read', x, tm.nokind(ctx.fz(w)), site)
            rep.eq('all-cells-read', length(x), length(row), site)
    rep.use(ctx)
    # file name of an instance
    for path, stem in (('./data/cc-instances/knapsack/ccmknap-10-10-500-1.csv',
                        'ccmknap-10-10-500-1'), ('ccmknap-40-30-5000-12.csv',
                                                 'ccmknap-40-30-5000-12'),
                       ('/a.b/c-csv.d/ccmknap-20-10-1000-3.csv', 'ccmknap-20-10-1000-3'),
                       ('data/knap-0.5-10-10-500-1.csv', 'knap-0.5-10-10-500-1')):
        ctx = Ctx(rep.prog)
        o = ctx.instance()
        ctx.setfield(o, 'file_location', const(path))
        v = tm.nokind(ctx.fz(ctx.call(o, 'get_file_name')))
        rep.holds('instance-name', True if v is const(stem) else (False if v.op == 's' else None),
                  fsite(rep.prog, 'ChanceKnapInstance', 'get_file_name'),
                  'the name of %s is %s' % (path, tm.show(v)))
        rep.use(ctx)


@rule('C25', 'written-where-it-is-read')
def c25_pair(rep):
    """the name the script writes a result to is the name the summary looks it up under."""
    f = export_func(rep.prog, 'read_single_experiment')
    site = (f.mod.path, f.node.lineno, f.qual)
    i, s, j = sym('inst', 'str'), sym('scen', 'int'), sym('idx', 'int')
    for meth in (1, 2, 3, 4):
        for cont in (0, 1):
            ctx, eff, o, msite = run_main(rep.prog, meth, cont)
            rep.use(ctx)
            tag = 'method-%d-name' % meth
            wr = [e for e in eff if e.kind == 'call:write_details' and e.g is not FALSE]
            if len(wr) != 1:
                rep.und(tag, msite)
                continue
            c2 = Ctx(rep.prog)
            stem, _ = spec(c2, 'run', 'instance_name', i, s, j)
            w = tm.nokind(tm.subst(tm.nokind(wr[0].args[0]), {STEM: tm.nokind(stem)}))
            _, op = take(c2, lambda: c2.I.call_func(
                f, [AOUT, i, s, j, app('float', 'num', AEPS), num(cont), num(meth)], {}, c2.st,
                None))
            rep.use(c2)
            op = [e for e in op if e.kind == 'open']
            rep.sites += len(op)
            if not op:
                rep.und(tag, site)
            for e in op:
                rep.eq(tag, w, tm.nokind(e.args[0]), wr[0].site)


def position(cells, want):
    return [i for i, c in enumerate(cells) if plain(c) is tm.nokind(want)]


@rule('C25', 'summary-columns')
def c25_summary(rep):
    f = export_func(rep.prog, 'format_method')
    site = (f.mod.path, f.node.lineno, f.qual)
    NI = sym('nb_instances', 'int')
    tm.POS.add(NI)
    req = sym('required', 'num')
    for tag, maker, m in (('extended', milp_cells, 2), ('adaptive', adaptive_cells, 3)):
        cells, _, rs = maker(rep, quiet=True)
        if cells is None:
            rep.und(tag + '-summary', rs)
            continue
        pos = {}
        for nm in ('time', 'gap') + (('iteration',) if tag == 'adaptive' else ()):
            want = mul(SYM['gap'], num(100)) if nm == 'gap' else SYM[nm]
            ps = position(cells, want)
            if len(ps) != 1:
                rep.holds('%s-%s-is-written' % (tag, nm), bool3(False, *cells) if not ps else None,
                          rs, 'the row holds no cell with the %s' % nm)
            else:
                pos[nm] = ps[0]
        if len(pos) < (3 if tag == 'adaptive' else 2):
            continue
        W = len(cells)
        ctx = Ctx(rep.prog)
        I = ctx.I
        j, k = kv(NI), kv(NI)
        rows = tab('L', NI, j, lit('L', *[app('cell', 'num', num(c), j) for c in range(W)]))
        ids = tab('L', NI, k, add(k, num(1)))
        milp, part = lit('L', num(1), num(2)), lit('L', num(3), num(4))

        def args():
            return [ctx.box(rows), num(m), ctx.box(ids), req, ctx.box(milp), ctx.box(part)]
        v, eff = take(ctx, lambda: ctx.fz(I.call_func(f, args(), {}, ctx.st, None)))
        rep.use(ctx)
        best = None
        for c in holes([v], lambda x: 0 < x <= 1e-5, 1e-7):
            w = ctx.fz(spec(ctx, 'run', 'summary', *args(), c, num(pos['time']),
                            num(pos.get('iteration', 0)), num(pos['gap']))[0])
            if best is None or w is v:
                best = w
        if v.op != 'lit' or len(v.a) != 5:
            rep.und(tag + '-summary', site)
            continue
        vs, ws = list(v.a[1:]), list(best.a[1:])

        def same(i):
            def g(ev, vals):
                a, b = vals[i], vals[i + 4]
                return True if a == b else '%s instead of %s' % (a, b)
            return g
        rep.claims(all(a is b for a, b in zip(vs, ws)), vs + ws,
                   [('%s-summary-%s' % (tag, n), same(i)) for i, n in enumerate(
                       ('time', 'solved', 'gap', 'entry'))], site, eff,
                   noraise=tag + '-summary-every-grid',
                   gen={NI: lambda ev: ev.rng('ni').randint(1, 4),
                        req: lambda ev: tm.Fraction(1, 100)}, app={'cell': cellgen})


# ------------------------------------------------------------------ C31 summary tables
def shrink(body):
    """the same script for a smaller grid of experiments."""
    body = copy.deepcopy(body)
    for x in body:
        if isinstance(x, ast.Assign) and len(x.targets) == 1:
            v = x.value
            if isinstance(v, (ast.List, ast.Tuple)) and len(v.elts) > 2 and all(
                    isinstance(e, ast.Constant) for e in v.elts):
                vals = [e.value for e in v.elts]
                if all(isinstance(e, str) for e in vals) or all(
                        isinstance(e, (int, float)) and e > 10 for e in vals):
                    v.elts = v.elts[:2]
            elif isinstance(v, ast.Constant) and isinstance(v.value, int) and \
                    not isinstance(v.value, bool) and 3 <= v.value <= 10:
                x.value = ast.copy_location(ast.Constant(2), v)
    return body


TIMES = {0: {1: 3, 2: 2, 3: 5, 4: 4}, 1: {1: 1, 2: 9, 3: 7, 4: 8}, 2: {1: 6, 2: 4, 3: 3, 4: 8},
         3: {1: 6, 2: 5, 3: 7, 4: 2}}
SOLVED = {0: {1: (3, 9), 2: (4, 5), 3: (4, 3), 4: (1, 1)},
          1: {1: (4, 7), 2: (0, 5), 3: (4, 8), 4: (4, 9)},
          2: {1: (0, 7), 2: (0, 5), 3: (0, 8), 4: (0, 2)},
          3: {1: (2, 7), 2: (1, 1), 3: (2, 7.5), 4: (2, 6)}}


def lost(i, s, j, ep, cont, m):
    """results without a file in the 'missing' pattern."""
    return (m == 2 and j == 2 and cont == 1 and s == 500 and ep < 0.15) or \
        (m == 4 and j == 1 and s == 1000 and ep > 0.15) or \
        (m == 1 and j == 2 and s == 1000 and cont == 0 and ep < 0.15)


MISS = const('missing')
ROLES = {'experiment_results': 0, 'm': 1, 'all_instance_ids': 2, 'required_gap': 3,
         'milp_methods': 4, 'part_methods': 5}


def summary_arguments(rep, e, names, ids):
    """what format_method is told about the grid."""
    if set(names) != set(ROLES):
        return rep.und('summary-arguments', e.site)
    a = dict(zip(names, e.args))
    one = lambda *xs: lit('L', *[num(x) for x in xs])
    for nm, want in (('milp_methods', one(1, 2)), ('part_methods', one(3, 4)),
                     ('all_instance_ids', lit('L', *[cst(x) for x in ids]))):
        got = tm.nokind(a[nm])
        n = length(got) if kind(got) in ('L', 'U', 'A') or got.op.startswith('range') else None
        if n is num(len(want.a) - 1):
            got = lit('L', *[idx(got, num(i)) for i in range(len(want.a) - 1)])
        rep.holds('summary-is-told-the-' + nm.replace('_', '-'), bool3(got is want, got), e.site,
                  '%s is %s, not %s' % (nm, tm.show(got), tm.show(want)))
    rep.holds('summary-is-told-the-gap', bool3(
        a['required_gap'].op == 'n' and abs(a['required_gap'].a[0] - tm.Fraction(1, 100)) <
        tm.Fraction(1, 10 ** 9), a['required_gap']), e.site,
        'a replication counts as solved below a gap of %s%%' % tm.show(a['required_gap']))


class Unstored(ast.NodeTransformer):
    """the calls that read a result, without keeping what they return."""

    def visit_Assign(self, x):
        if isinstance(x.targets[0], ast.Subscript) and any(
                isinstance(y, ast.Name) and y.id == 'read_single_experiment'
                for y in ast.walk(x.value)):
            return ast.copy_location(ast.Expr(value=x.value), x)
        return x


@rule('C31', 'grid')
def c31_grid(rep):
    """the summary reads the results of exactly the experiments the batch script runs."""
    mod = rep.prog.modules.get('export_results')
    if mod is None:
        raise Anchor('export_results.py')
    site = (mod.path, 1, 'export_results')
    b = read_batch(rep.prog.root)
    if not b or any(len(x[0]) < 5 for x in b):
        return rep.und('summary-covers-the-batch', site, 'the batch script is not understood')
    ran = set()
    for _, _, ts in b:
        for f, c, e, q in [t[:4] for t in ts]:
            m = re.match(r'^.*?(ccmknap-\d+-\d+)-(\d+)-(\d+)\.csv$', f)
            try:
                ran.add((m.group(1), int(m.group(2)), int(m.group(3)), tm.Fraction(e), int(c),
                         int(q)))
            except (AttributeError, ValueError):
                return rep.und('summary-covers-the-batch', site)
    ctx = Ctx(rep.prog)
    I = ctx.I
    reads = []

    def row(I, f, env, st, node):
        names = [a.arg for a in f.node.args.args]
        reads.append([I.freeze(I.D(env[a], st), st) for a in names])
        return I.box(lit('L', const('stem')), st)
    I.stubs['read_single_experiment'] = row
    I.extvals['__file__'] = const('/root/export_results.py')
    st = I.fresh_state(mod)
    st.env['__file__'] = const('./export_results.py')
    st.env['__name__'] = const('__main__')
    body = mod.tree.body
    last = max([i for i, x in enumerate(body) if any(
        isinstance(y, ast.Name) and y.id == 'read_single_experiment' for y in ast.walk(x))
        and not isinstance(x, (ast.Import, ast.ImportFrom))] or [-1])
    I.exec_block([Unstored().visit(copy.deepcopy(x)) for x in body[:last + 1]], st)
    rep.use(ctx)
    rep.sites += len(reads)
    got = set()
    for ks in reads:
        ks = [tm.nokind(x) for x in ks]
        if len(ks) != 7 or any(x.op not in ('s', 'n') for x in ks[1:]):
            return rep.und('summary-covers-the-batch', site, 'keys are not constants')
        got.add(tuple(x.a[0] for x in ks[1:]))
    if not got:
        return rep.und('summary-covers-the-batch', site, 'no result is read')
    for what, d in (('run but never summarised', ran - got), ('summarised but never run',
                                                              got - ran)):
        rep.holds('summary-covers-the-batch', not d, site, '%d experiments are %s: %s' % (
            len(d), what, sorted(d, key=str)[:2]))


@rule('C31', 'tables')
def c31(rep):
    mod = rep.prog.modules.get('export_results')
    if mod is None:
        raise Anchor('export_results.py')
    cells, _, rs = milp_cells(rep, quiet=True)
    ps = position(cells, SYM['big_m_time']) if cells is not None else []
    site = (mod.path, 1, 'export_results')
    if len(ps) != 1:
        rep.und('big-M-time-column', rs)
    for pat in ('solved', 'unsolved', 'missing', 'missing-unsolved'):
        ctx = Ctx(rep.prog)
        I = ctx.I
        I.index_errors = True
        some = pat.startswith('missing')
        reads = []

        def row(I, f, env, st, node):
            names = [a.arg for a in f.node.args.args]
            ks = [I.freeze(I.D(env[a], st), st) for a in names]
            reads.append(ks)
            W = 15 if ks[-1].op == 'n' and ks[-1].a[0] in (1, 2) else 18
            if some and len(ks) == 7 and all(x.op in 'sn' for x in ks[1:]) and \
                    lost(*[x.a[0] for x in ks[1:]]):
                return I.box(lit('L'), st)
            return I.box(lit('L', const('stem'), *[app('cell', 'num', num(c), *ks[1:])
                                                   for c in range(1, W)]), st)
        choice = {}

        def pick(key):
            return choice.setdefault(key, len(choice) % 4)

        def fm(I, f, env, st, node):
            names = [a.arg for a in f.node.args.args]
            fa = [I.freeze(I.D(env[a], st), st) for a in names]
            fa = [I.freeze(I.seq(x, st), st) if x.op == 'range3' else x for x in fa]
            I.eff('call:format_method', fa, st, node)
            rows, m = fa[0], fa[1]
            ks = []
            if rows.op == 'lit':
                for r in rows.a[1:]:
                    c = idx(r, num(1))
                    ks.append(c.a[3:] if is_app(c, 'cell') else (c,))
            mm = int(m.a[0]) if m.op == 'n' else 0
            flat = [y for k_ in ks for y in k_]
            ent = [app('entry', 'str', num(c), m, *flat) for c in
                   range(1 if mm in (1, 2) else 2)]
            # which method is best differs from experiment to experiment
            key = tuple(x for i, x in enumerate(ks[0]) if i in (0, 1, 3, 4)) if ks and \
                len(ks[0]) == 6 else ()
            i = pick(key)
            if 'unsolved' not in pat:
                r = (num(TIMES[i].get(mm, 1)), num(2), tm.INF)
            else:
                so, ga = SOLVED[i].get(mm, (0, 1))
                r = (tm.INF, num(so), num(ga))
            return lit('U', *r, I.box(lit('L', *ent), st))
        I.stubs['read_single_experiment'] = row
        I.stubs['write_table'] = recorder('write_table', lambda I, e, s: NONE)
        I.stubs['format_method'] = fm
        I.extvals['__file__'] = const('/root/export_results.py')
        st = I.fresh_state(mod)
        st.env['__file__'] = const('./export_results.py')
        st.env['__name__'] = const('__main__')
        m0 = len(I.trace)
        body = shrink(mod.tree.body)
        o = I.exec_block(body, st)
        eff = I.trace[m0:]
        rep.use(ctx)
        broken_calls(rep, 'tables-' + pat + '-calls-fit', eff, site)
        wt = [e for e in eff if e.kind == 'call:write_table']
        rep.sites += len(wt) + len(reads)
        if not wt or not reads:
            rep.und('tables-' + pat, site)
            continue
        keys = []
        for ks in reads:
            if len(ks) != 7 or any(k_.op not in ('s', 'n') for k_ in ks[1:]):
                rep.und('tables-' + pat, site)
                return
            keys.append(tuple(k_.a[0] for k_ in ks[1:]))
        for ks in reads[:1]:
            p = tm.nokind(ks[0])
            ok = p.op == 's' and p.a[0].endswith('/results/tables/') or p.op == 'strcat' and \
                p.a[-1].op == 's' and p.a[-1].a[0].endswith('/results/tables/')
            rep.holds('results-folder', bool3(ok, p) if p.op in ('s', 'strcat') else None, site,
                      'results are read from %s' % tm.show(p))
        full = set()
        dims = [sorted(set(k_[i] for k_ in keys)) for i in range(6)]
        full = set(itertools.product(*dims))
        rep.holds('every-experiment-read', True if full == set(keys) else False, site,
                  'results of some experiments of the grid are never read')
        insts, scens, ids, epss, conts, meths = dims
        order = {i: list(dict.fromkeys(k_[i] for k_ in keys)) for i in range(6)}
        insts, scens, epss, meths = order[0], order[1], order[3], order[5]
        tables = {}
        for e in wt:
            n, t = tm.nokind(e.args[0]), tm.nokind(e.args[1])
            if n.op == 'strcat':
                last = ''.join(x.a[0] if x.op == 's' else '?' for x in n.a)
            elif n.op == 's':
                last = n.a[0]
            else:
                rep.und('table-names', e.site)
                return
            tables[last.split('/')[-1]] = (t, e)
            rep.holds('tables-unconditional', bool3(e.g is TRUE, e.g), e.site,
                      'a table is written only if %s' % tm.show(e.g))
        fmc = [e for e in eff if e.kind == 'call:format_method']
        if fmc and pat == 'solved':
            f = export_func(rep.prog, 'format_method')
            for e in fmc:
                summary_arguments(rep, e, [a.arg for a in f.node.args.args],
                                  list(dict.fromkeys(k_[2] for k_ in keys)))
        # big-M times
        for i in insts:
            nm = str(i) + '-big-m-times.csv'
            if nm not in tables:
                rep.bad('big-M-table', site, 'the table %s is not written' % nm)
                continue
            t, e = tables[nm]
            if t.op != 'lit':
                rep.und('big-M-table', e.site)
                continue
            rows = list(t.a[1:])
            rep.holds('big-M-rows', len(rows) == len(scens) and all(r.op == 'lit' for r in rows)
                      if not is_soft(t) else None, e.site, '%d rows for %d numbers of scenarios'
                      % (len(rows), len(scens)))
            for s, r in zip(scens, rows):
                if r.op != 'lit' or len(ps) != 1:
                    continue
                rep.eq('big-M-scenarios', idx(r, num(1)), num(s), e.site)
                if len(r.a) != 6:
                    rep.holds('big-M-columns', bool3(False, r), e.site, '%d cells' %
                              (len(r.a) - 1))
                    continue
                for c, (mm, cs) in zip(r.a[3:], ((1, conts), (2, [1]), (2, [0]))):
                    n = len(cs) * len(ids) * len(epss)
                    if some and any(lost(i, s, q[0], q[1], q[2], mm) for q in
                                                itertools.product(ids, epss, cs)):
                        rep.eq('big-M-missing', tm.nokind(c), const('-'), e.site)
                        continue
                    tot = num(0)
                    for q in itertools.product(ids, epss, cs):
                        tot = add(tot, app('cell', 'num', num(ps[0]), cst(i), cst(s), cst(q[0]),
                                           cst(q[1]), cst(q[2]), cst(mm)))
                    avg = div(tot, num(n))
                    nums = [x.a[1] for x in tm.walk(c) if x.op == 'fmt']
                    rep.holds('big-M-times', True if nums and all(x is avg for x in nums) else
                              bool3(False, c), e.site,
                              'the cell of %s, %s scenarios, method %s is %s' % (
                                  i, s, mm, tm.show(nums[0] if nums else c, 4)[:200]))
        # comparison of the methods
        for cont, i in itertools.product(conts, insts):
            nm = '%s-%s-result-table.csv' % (i, cont)
            if nm not in tables:
                rep.bad('result-table', site, 'the table %s is not written' % nm)
                continue
            t, e = tables[nm]
            if t.op != 'lit' or any(r.op != 'lit' for r in t.a[1:]):
                rep.holds('result-table', None, e.site)
                continue
            rows = list(t.a[1:])
            grid = list(itertools.product(epss, scens))
            rep.holds('result-rows', bool3(len(rows) == len(grid), t), e.site,
                      '%d rows for %d experiments' % (len(rows), len(grid)))
            for (ep, s), r in zip(grid, rows):
                key = tuple(cst(x) for x in (i, s, ep, cont))
                c = choice.get(key)
                gone = [mm for mm in meths if some and
                        any(lost(i, s, j, ep, cont, mm) for j in ids)]
                if c is None:
                    rep.holds('result-entries', bool3(False, t), e.site,
                              'the results of %s are not summarised' % ((i, s, ep, cont),))
                    continue
                if 'unsolved' not in pat:
                    best = min((q for q in TIMES[c] if q not in gone),
                               key=lambda q: TIMES[c][q])
                else:
                    top = max(SOLVED[c][q][0] for q in SOLVED[c] if q not in gone)
                    best = min((q for q in SOLVED[c] if SOLVED[c][q][0] == top and
                                q not in gone),
                               key=lambda q: SOLVED[c][q][1])
                want = [cst(s)]
                for mm in meths:
                    if mm in gone:
                        want += [MISS] if mm in (1, 2) else [MISS, MISS]
                        continue
                    flat = [cst(y) for j in ids for y in (i, s, j, ep, cont, mm)]
                    for q in range(1 if mm in (1, 2) else 2):
                        x = app('entry', 'str', num(q), cst(mm), *flat)
                        if mm == best and q == 0:
                            x = tm.tstrcat(const('\\textbf{'), x, const('}'))
                        want.append(x)
                got = [MISS if x is tm.NAN or x is const('-') else x for x in r.a[3:]]
                rep.eq('result-entries', lit('L', *got), lit('L', *want), e.site,
                       'row of %s, tolerance %s, %s scenarios, type %s (best: method %s)' % (
                           i, ep, s, cont, best))


@rule('C31', 'tables-on-file')
def c31_file(rep):
    """every row of a table handed over for writing is in the file, in order, and nothing else."""
    ctx = Ctx(rep.prog)
    I = ctx.I
    f = export_func(rep.prog, 'write_table')
    site = (f.mod.path, f.node.lineno, f.qual)
    path, table = sym('path', 'str'), sym('table', ('L', ('L', 'str')))
    known = tm.UNKNOWNS[0]
    _, eff = take(ctx, lambda: I.call_func(f, [path, ctx.box(table)], {}, ctx.st, None))
    known = known == tm.UNKNOWNS[0]
    broken_calls(rep, 'tables-can-be-written', eff, site)
    rows = []
    for e in eff:
        if e.kind == 'open':
            rep.holds('table-file', bool3(
                tm.nokind(e.args[0]) is path and e.args[1].op == 's' and 'w' in e.args[1].a[0],
                *e.args[:2]), e.site, 'the table is written to %s with mode %s' % (
                    tm.show(e.args[0]), tm.show(e.args[1])))
            rows = []
        elif e.kind in ('csvrow', 'csvrows'):
            rows.append((e, e.g))
            if e.g is not TRUE and not e.qs:
                rep.und('table-rows', e.site, 'written if %s' % tm.show(e.g))
    rep.sites += len(rows)
    if not rows:
        rep.holds('table-rows', False if known else None, site, 'no row is written')
    else:
        file_rows(rep, 'table-rows', rows, table, site)
    rep.use(ctx)


def cst(x):
    return const(x) if isinstance(x, str) else num(x)


# ------------------------------------------------------------------ C29 traces
def clocked(I):
    """one reading of the clock outside and one inside each call of the callback."""
    from ..lib import loopks
    start, t = sym('t_start', 'num'), 't_now'

    def now(I, st):
        if getattr(I, 'in_callback', 0):
            return app(t, 'num', *loopks(I)[-1:])
        return start
    I.now_hook = now
    return start


def same_rows(name, v):
    return tm.nokind(v)


def cbval(ev, a):
    a = [x for x in a if not (isinstance(x, tuple) and not isinstance(x, str)) and x != 'num']
    return tm.Fraction(ev.rng('cb%s' % (a,)).choice((0, 1, 2)))


TRACE_GEN = {sym('~ncb', 'int'): lambda ev: ev.rng('ncb').choice((1, 2, 3, 4))}
TRACE_APP = {'cbGet': cbval,
             'cbwhere': lambda ev, a: ev.rng('where%s' % (a,)).choice(('cb:MIP', 'cb:MIP',
                                                                       'cb:MIPSOL')),
             't_now': lambda ev, a: 1000 + 10 * [x for x in a if not isinstance(
                 x, (str, tuple))][-1]}


@rule('C29', 'solver-trace')
def c29_solver(rep):
    site = fsite(rep.prog, 'OptiModel', 'solve')
    ctx = Ctx(rep.prog)
    I = ctx.I
    inst = ctx.instance()
    el, path = sym('el', 'num'), sym('path', 'str')
    ref = ctx.new('DeterModel', inst)
    m = ctx.new('DeterModel', inst)
    clocked(I)
    want, _ = spec(ctx, 'run', 'trace_rows', ctx.field(ref, 'grb_model'), el)
    want = tm.nokind(ctx.fz(want))
    for again in (False, True):
        tag = 'second-solve-' if again else ''
        _, eff = take(ctx, lambda: ctx.call(m, 'solve', save_bounds=TRUE, path=path,
                                            elapsed_time=el))
        broken_calls(rep, tag + 'trace-can-be-recorded', eff, site)
        rep.sites += len(eff)
        with evalt.joint(TRACE_GEN, TRACE_APP):
            saved_trace(rep, tag, eff, path, want, site)
    rep.use(ctx)
    # the arguments reach the model that is solved
    ctx = Ctx(rep.prog)
    I = ctx.I
    inst = ctx.instance()
    s = ctx.new('Solver', inst, TL, GAP)
    names = []
    for c in ('OptiModel', 'CCLPModel'):
        if rep.prog.find_class(c) and 'solve' in rep.prog.find_class(c).methods:
            names = names_of(I, c, 'solve')
            I.stubs[c + '.solve'] = recorder('opti_solve', lambda I, e, st: NONE)
    sb = sym('sb', 'bool')
    _, eff = take(ctx, lambda: ctx.call(
        s, 'solve_cclp_model', inst, FINDER, time_limit=sym('lim', 'num'), gap=sym('g', 'num'),
        elapsed_time=el, save_bounds=sb, path=path))
    rep.use(ctx)
    handed(rep, 'trace', eff, 'opti_solve', names, dict(save_bounds=sb, path=path,
                                                       elapsed_time=el),
           fsite(rep.prog, 'Solver', 'solve_cclp_model'))
    # and the time before it is the time already used by the run
    ctx = Ctx(rep.prog)
    I = ctx.I
    inst = ctx.instance()
    s = ctx.new('MilpSolver', inst, time_limit=TL, gap=GAP)
    for c in ('Solver', 'MilpSolver'):
        if 'solve_cclp_model' in cls(rep.prog, c).methods:
            names = names_of(I, c, 'solve_cclp_model')
            I.stubs[c + '.solve_cclp_model'] = recorder(
                'solve_cclp', lambda I, e, st: lit('U', NONE, NONE, NONE, NONE))
    I.stubs['TimeManager.get_remaining_time'] = lambda I, f, e, st, n: sym('left', 'num')
    I.stubs['MilpSolver._compute_big_m'] = lambda I, f, e, st, n: NONE
    _, eff = take(ctx, lambda: ctx.call(s, 'solve', use_big_m=FALSE, save_bounds=sb, path=path))
    rep.use(ctx)
    handed(rep, 'run', eff, 'solve_cclp', names, dict(
        save_bounds=sb, path=path, elapsed_time=sub(TL, sym('left', 'num'))),
        fsite(rep.prog, 'MilpSolver', 'solve'))


def handed(rep, tag, eff, kind_, names, want, site):
    es = [e for e in eff if e.kind == 'call:' + kind_]
    if not es:
        return rep.und(tag + '-arguments', site)
    for e in es:
        got = dict(zip(names, e.args))
        for k_, w in want.items():
            if k_ not in got:
                rep.und('%s-%s' % (tag, k_), e.site)
            else:
                rep.eq('%s-%s' % (tag, k_), tm.nokind(got[k_]), w, e.site)


def under(t, c, v):
    """guard t under c = v."""
    return conj(t, c if v else nt(c))


def saved_trace(rep, tag, eff, path, want, site):
    stop = None
    for e in eff:
        for a in tm.walk(e.g):
            if a.op == 'app' and a.a[0] == 'grb' and a.a[2].op == 's' and \
                    a.a[2].a[0] == 'Status':
                stop = eq(a, num(11))
    io = [e for e in eff if e.kind in ('open', 'csvrow', 'csvrows', 'raise')]
    for end in (('interrupted', True), ('finished', False)):
        if stop is None and end[1]:
            continue
        rows, opened, n = [], 0, 0
        seq = [(e, under(e.g, stop, end[1]) if stop is not None else e.g) for e in io]
        full = stop if end[1] else (nt(stop) if stop is not None else TRUE)
        for e, g in seq:
            if g is FALSE:
                continue
            if g is not full and not (e.kind[:3] == 'csv' and e.qs):
                rep.und(tag + end[0] + '-saved', e.site, 'saved only if %s' % tm.show(g))
            if e.kind == 'raise':
                break
            if e.kind == 'open':
                rep.holds(tag + end[0] + '-file', bool3(
                    tm.nokind(e.args[0]) is path and e.args[1].op == 's' and
                    e.args[1].a[0][:1] in ('wa' if opened else 'w'), *e.args[:2]), e.site,
                    'the rows are written to %s with mode %s' % (tm.show(e.args[0]),
                                                                 tm.show(e.args[1])))
                if e.args[1].op == 's' and 'w' in e.args[1].a[0]:
                    rows = []
                opened += 1
                continue
            rows.append((e, restrict(g, full)))
        if not opened or not rows:
            rep.holds(tag + end[0] + '-saved', False, site, 'no row is saved when the solve is '
                      + end[0])
            continue
        file_rows(rep, tag + end[0] + '-rows', rows, want, site)


def file_rows(rep, name, rows, want, site, cell=None):
    """the rows written by the effects are the rows of the term `want`."""
    parts = []
    for e, g in rows:
        r = tm.nokind(e.args[1])
        if e.kind == 'csvrows':
            parts.append(r)
        elif not e.qs:
            parts.append(lit('L', r))
        elif len(e.qs) == 1:
            k_, n = e.qs[0]
            parts.append(tm.ftab('L', n, k_, g, r))
        else:
            return rep.und(name, e.site)
    v = parts[0] if len(parts) == 1 else tm.cat('L', *parts)
    rep.eq(name, tm.nokind(v), tm.nokind(want), rows[0][0].site)


@rule('C29', 'iteration-trace')
def c29_iteration(rep):
    # one row
    ctx = Ctx(rep.prog)
    I = ctx.I
    vs = dict(iteration=SYM['iteration'], nb_subsets=SYM['subsets'], vLB=SYM['vLB'],
              vUB=SYM['vUB'], gap=SYM['gap'])
    start, now = sym('t_first', 'num'), clocked(I)
    I.stubs['TimeManager.get_start_time'] = lambda I, f, e, st, n: start
    o = ctx.new('Informer')
    site = fsite(rep.prog, 'Informer', 'store_iteration_info')
    w, _ = spec(ctx, 'run', 'iteration_row', *[vs[k_] for k_ in (
        'iteration', 'nb_subsets', 'vLB', 'vUB', 'gap')], now, start)
    w = tm.nokind(ctx.fz(w))
    _, eff = take(ctx, lambda: ctx.call(o, 'store_iteration_info', **vs))
    broken_calls(rep, 'row-can-be-recorded', eff, site)
    info = tm.nokind(ctx.fz(ctx.field(o, 'iteration_info') or unk('iteration_info')))
    rep.sites += 1
    if info.op != 'lit' or any(x.op != 'lit' for x in info.a[1:]):
        rep.und('iteration-row', site)
    else:
        rep.holds('one-row-per-update', len(info.a) == 2, site, '%d rows are recorded for one '
                  'update' % (len(info.a) - 1))
        for r in info.a[1:]:
            cells = r.a[1:]
            want = w.a[1:]
            if len(cells) != len(want):
                rep.bad('iteration-row', site, '%d cells are recorded instead of %d' % (
                    len(cells), len(want)))
                continue
            for c, x, n in zip(cells, want, ('iteration', 'time', 'lower-bound', 'upper-bound',
                                             'gap', 'subsets')):
                rep.eq('iteration-' + n, plain(c), plain(x), site)
    # further rows are put after the earlier ones
    old = sym('earlier_rows', ('L', ('L', 'num')))
    ctx.setfield(o, 'iteration_info', ctx.box(old))
    _, eff = take(ctx, lambda: ctx.call(o, 'store_iteration_info', **vs))
    new = tm.nokind(ctx.fz(ctx.field(o, 'iteration_info')))
    if info.op == 'lit' and len(info.a) == 2:
        rep.eq('rows-in-order', new, tm.nokind(tm.cat('L', old, info)), site)
    rep.use(ctx)
    # the file
    ctx, s = solver_ctx(rep.prog, run=False)
    inf = ctx.field(s, 'informer')
    ctx.setfield(inf, 'iteration_info', ctx.box(old))
    path = sym('path', 'str')
    _, eff = take(ctx, lambda: ctx.call(s, 'write_iteration_details', path))
    site = fsite(rep.prog, 'AdaptivePartitioner', 'write_iteration_details')
    broken_calls(rep, 'iterations-can-be-written', eff, site)
    rows = []
    for e in eff:
        if e.kind == 'open':
            rep.holds('iteration-file', bool3(tm.nokind(e.args[0]) is path and e.args[1].op == 's'
                                              and 'w' in e.args[1].a[0], *e.args[:2]), e.site,
                      'the rows are written to %s with mode %s' % (tm.show(e.args[0]),
                                                                   tm.show(e.args[1])))
            rows = []
        elif e.kind in ('csvrow', 'csvrows'):
            rows.append((e, e.g))
            if e.g is not TRUE and not e.qs:
                rep.und('iterations-written', e.site, 'written if %s' % tm.show(e.g))
    if not rows:
        rep.bad('iterations-written', site, 'no iteration is written')
    else:
        file_rows(rep, 'iterations-written', rows, old, site)
    rep.use(ctx)


@rule('C29', 'iteration-updates')
def c29_updates(rep):
    ctx, s = solver_ctx(rep.prog, big=sym('big', 'bool'), merge=sym('merge', 'bool'), run=False)
    I = ctx.I
    keys = ('iteration', 'nb_subsets', 'vLB', 'vUB')

    def cur(I, st, ks):
        return [tm.nokind(I.freeze(getf(st, s, k_), st)) for k_ in ks]

    def store(I, f, env, st, node):
        names = [a.arg for a in f.node.args.args if a.arg != 'self']
        if any(k_ not in names for k_ in keys + ('gap',)):
            I.eff('call:store?', [], st, node)
            return NONE
        args = [tm.nokind(I.freeze(I.D(env[k_], st), st)) for k_ in keys + ('gap',)]
        now = cur(I, st, keys)
        I.eff('call:store', args + now + [app('gapof', 'num', *now[2:])], st, node)
        return NONE
    I.stubs['Informer.store_iteration_info'] = store
    for c in ('Solver', 'AdaptivePartitioner'):
        I.stubs[c + '._compute_gap'] = lambda I, f, e, st, n: app(
            'gapof', 'num', *cur(I, st, ('vLB', 'vUB')))
    _, eff = take(ctx, lambda: ctx.call(
        s, 'solve', ctx.finder, use_big_M=sym('big', 'bool'), big_m_method=sym('mmethod', 'str'),
        use_merger=sym('merge', 'bool'), use_lazy=sym('lazy', 'bool')))
    rep.use(ctx)
    site = loop_site(rep)
    try:
        lp = Loop(ctx, s)
    except NoLoop:
        return rep.und('main-loop', site, 'no loop that updates the bounds was found')
    if any(e.kind == 'call:store?' for e in eff):
        return rep.und('rows-per-update', site)
    st = [(i, e) for i, e in enumerate(eff) if e.kind == 'call:store']
    ub = [(i, e) for i, e in enumerate(eff) if e.kind in ('call:part_ub', 'call:first_ub',
                                                          'call:partition_bound',
                                                          'call:first_iteration_bound')]
    lb = [(i, e) for i, e in enumerate(eff) if e.kind == 'call:deterministic_bound']
    rep.sites += len(st) + len(ub) + len(lb)
    if not st:
        return rep.bad('rows-per-update', site, 'no row is recorded in an iteration')
    for i, e in st:
        for nm, a, w in zip(keys + ('gap',), e.args[:5], e.args[5:]):
            rep.eq('row-shows-current-' + nm.replace('_', '-'), a, w, e.site)
    if not ub or not lb:
        return rep.und('rows-per-update', site)
    first = min(i for i, _ in ub)
    after = FALSE
    for i, e in st:
        if i > first:
            after = disj(after, e.g)
    phi = lp.f.get('vUB')
    for nm, g, state in lp.ends():
        v = joint(ctx, state, s, ('vUB',))
        if v is None or phi is None:
            rep.und('row-per-upper-bound', site)
            continue
        lost = conj(g, nt(eq(v[0], phi)), nt(after))
        # at the end of a run the lower bound may take the value of the upper bound
        rep.holds('row-per-upper-bound', bool3(lost is FALSE, lost), site,
                  'a new upper bound is not recorded before the end of the iteration (%s)' % nm)
    for j, d in lb:
        nxt = min([i for i, _ in lb + ub if i > j] or [len(eff)])
        after = FALSE
        for i, e in st:
            if j < i < nxt:
                after = disj(after, e.g)
        lost = conj(d.g, nt(after))
        rep.holds('row-per-lower-bound', bool3(lost is FALSE, lost), d.site,
                  'no row is recorded after the lower bound was computed')
    broken_calls(rep, 'rows-can-be-recorded', [e for e in eff if e.kind in (
        'undef_name', 'type_error', 'sig_error', 'attr_undef')], site)
    cut = sorted([i for i, _ in lb] + [max(i for i, _ in ub)])
    for a, b in zip(cut, cut[1:] + [len(eff)]):
        es = [e for i, e in st if a < i < b]
        for x in range(len(es)):
            for y in range(x):
                g = conj(es[x].g, es[y].g)
                rep.holds('one-row-per-update', bool3(g is FALSE, g), es[x].site,
                          'two rows are recorded for one update')
    for i, e in st:
        before = [j for j in cut if j < i]
        if not before:
            rep.holds('row-follows-its-update', bool3(False, e.g), e.site,
                      'a row is recorded before the bound of the iteration is computed')
