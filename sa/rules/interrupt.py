"""C24: an interrupted run leaves valid results."""
import ast
from .common import *
from ..lib import recorder, fresh
from .adaptive import (solver_ctx, Loop, NoLoop, loop_site, joint, pairs, apps, is_app, is_stub,
                       bool3, soft_any, below, TOL)
from .results import run_main, broken_calls, tm_dead, under, STEM, SYM
from .run import TL, GAP, FINDER


@rule('C24', 'bounds-on-record')
def c24_bounds(rep):
    """every value the two bounds take while the loop runs is a proven bound."""
    ctx, s = solver_ctx(rep.prog, big=sym('big', 'bool'), merge=sym('merge', 'bool'), run=False)
    I = ctx.I
    I.watch = frozenset(('vLB', 'vUB'))
    _, eff = take(ctx, lambda: ctx.call(
        s, 'solve', ctx.finder, use_big_M=sym('big', 'bool'), big_m_method=sym('mmethod', 'str'),
        use_merger=sym('merge', 'bool'), use_lazy=sym('lazy', 'bool')))
    rep.use(ctx)
    site = loop_site(rep)
    try:
        lp = Loop(ctx, s)
    except NoLoop:
        return rep.und('main-loop', site, 'no loop that updates the bounds was found')
    ws = [e for e in eff if e.kind == 'fieldwrite' and e.args[0].op == 'ref' and
          e.args[0].a[0] == s.a[0]]
    rep.sites += len(ws)
    if not ws:
        return rep.und('bounds-on-record', site)
    for e in ws:
        name = e.args[1].a[0]
        g = conj(e.g, lp.inv)
        v, old = tm.nokind(e.args[2]), tm.nokind(e.args[3])
        res, why = True, ''

        def put(r, w):
            nonlocal res, why
            k = {True: 0, None: 1, False: 2}
            if k[r] > k[res]:
                res, why = r, w
        for h, (x, o) in pairs([v, old], g):
            w = 'at this point %s can be %s' % (name, tm.show(x, 4))
            if x is o:
                continue
            if name == 'vUB':
                if is_stub(x, 'first_ub.3', 'part_ub.3', 'first_ub.2'):
                    put(bool3(below(h, x, o, TOL), h), w + ' without being at most the bound '
                        'before')
                elif is_stub(x, 'quantile'):
                    pass
                else:
                    put(None if soft_any(x) else False, w)
                continue
            if is_app(x, 'incumbent.2'):
                a = app('incumbent.0', 'bool', *x.a[2:])
                put(bool3(conj(h, nt(a)) is FALSE, h), w + ' without its acceptance flag')
            elif is_app(x, 'projected.1'):
                pass
            else:
                # the upper bound, when the solution of the relaxation is feasible
                fe = conj(h, *[nt(a) for a in apps(h, 'feas')])
                cur = loop_value(lp, x)
                if cur and fe is FALSE:
                    continue
                put(None if soft_any(x, h) or not cur and not is_inf(x) and not num_like(x)
                    else False, w)
        rep.holds('%s-always-valid' % ('upper-bound' if name == 'vUB' else 'lower-bound'), res,
                  e.site, why)


def num_like(x):
    return x.op == 'n' or is_stub(x, 'first_ub.2', 'first_ub.3', 'part_ub.2', 'part_ub.3',
                                  'quantile', 'incumbent.2', 'cost') or x.op in ('max', 'min')


def is_inf(x):
    return x.op == 'inf'


def loop_value(lp, x):
    """x is a value of the upper bound during the loop."""
    return any(y is lp.f.get('vUB') or is_stub(y, 'first_ub.3', 'first_ub.2', 'part_ub.3')
               for y in tm.walk(x)) or x.op == 'app' and str(x.a[0]).startswith('phi')


@rule('C24', 'results-can-be-written')
def c24_written(rep):
    """from the first call into another component on, both files can be written."""
    from ..interp import Dead
    for split, init in (('random', 'random'), ('cost', 'cost')):
        snaps = []
        ctx, s = solver_ctx(rep.prog, run=False, init=init, method=split,
                            acc=TRUE if split == 'cost' else FALSE)
        I = ctx.I
        ctx.setfield(s, 'projection_method', const('rescaled_max_violation'))
        seen = set()

        def shot(name, old):
            def h(I, f, env, st, node):
                if name not in seen:
                    seen.add(name)
                    snaps.append((name, st.clone(), I.where(node, st)))
                return old(I, f, env, st, node)
            return h
        for q in list(I.stubs):
            if q.startswith(('Evaluator.', 'UpperBounder.', 'LowerBounder.', 'Merger.',
                             'CostRefiner.', 'RandomRefiner.', 'Refiner.')):
                I.stubs[q] = shot(q, I.stubs[q])
        take(ctx, lambda: ctx.call(s, 'solve', ctx.finder, use_big_M=TRUE,
                                   big_m_method=const('belotti'), use_merger=TRUE,
                                   use_lazy=FALSE))
        if not snaps:
            return rep.und('results-can-be-written', loop_site(rep))
        I.stubs['TimeManager.get_total_time'] = lambda I, f, e, st, n: SYM['time']
        for c in ('Solver', 'AdaptivePartitioner'):
            I.stubs[c + '._compute_gap'] = lambda I, f, e, st, n: SYM['gap']
        for c in ('ChanceKnapInstance', 'ChanceInstance'):
            I.stubs[c + '.get_file_name'] = lambda I, f, e, st, n: STEM
        def size(I, f, env, st, node):
            n = st.heap[env['self'].a[0]][2].get('$n')
            if n is None:
                I.eff('attr_undef', (const('partition'), const('nb_subsets')), st, node)
                return unk('nb_subsets')
            return n
        I.stubs['PartitionChanceKnapInstance.get_nb_scenarios'] = size
        fr = ctx.st.fr
        for name, st, where in snaps:
            st.fr = fr
            st.g = TRUE
            ctx.st = st
            for m in ('write_all_computation_details', 'write_iteration_details'):
                try:
                    _, eff = take(ctx, lambda: ctx.call(s, m, sym('out', 'str')))
                except Dead:
                    rep.bad('results-can-be-written', where, '%s fails when the run is '
                            'interrupted in %s' % (m, name))
                    continue
                bad = [e for e in eff if e.kind in ('attr_undef', 'undef_name', 'type_error', 'sig_error',
                                                    'key_error', 'missing_key') and
                       e.g is not FALSE]
                rep.sites += 1
                rep.holds('results-can-be-written', bool3(not bad, *[e.g for e in bad]),
                          bad[0].site if bad else where,
                          'interrupted in %s: %s %s' % (
                              name, bad[0].kind if bad else '',
                              ', '.join(tm.show(a) for a in (bad[0].args if bad else ()))))
        rep.use(ctx)


@rule('C24', 'solver-interruption')
def c24_status(rep):
    """an interrupted solve never returns normally, any other one does."""
    base = rep.prog.find_class('OptiModel')
    if base is None:
        raise Anchor('OptiModel')
    f0 = rep.prog.method(base, 'solve')
    for c in rep.prog.subclasses(base):
        f = rep.prog.method(c, 'solve')
        if f is not f0:
            rep.und('solve-of-' + c.name, (f.mod.path, f.node.lineno, f.qual),
                    'has its own solve')
    for sb in (FALSE, TRUE):
        ctx = Ctx(rep.prog)
        inst = ctx.instance()
        m = ctx.new('DeterModel', inst)
        site = fsite(rep.prog, 'DeterModel', 'solve')
        tag = 'with-trace' if sb is TRUE else 'without-trace'
        _, eff = take(ctx, lambda: ctx.call(m, 'solve', save_bounds=sb, path=sym('p', 'str'),
                                            elapsed_time=sym('el', 'num')))
        rep.use(ctx)
        rep.sites += len(eff)
        opt = [i for i, e in enumerate(eff) if e.kind == 'optimize']
        if not opt:
            rep.und('interrupted-solve-raises-' + tag, site)
            continue
        st = app('grb', 'num', const('Status'), *[])
        stat = None
        gs = [ctx.st.g] + [e.g for e in eff]
        for g in gs:
            for a in tm.walk(g):
                if a.op == 'app' and a.a[0] == 'grb' and a.a[2].op == 's' and \
                        a.a[2].a[0] == 'Status':
                    stat = a
        if stat is None:
            rep.holds('interrupted-solve-raises-' + tag, None if any(is_soft(g) for g in gs)
                      else False, site, 'an interrupted solve is not noticed: its incumbent is '
                      'used as if it were optimal')
            continue
        stop = eq(stat, num(11))
        # reading the status
        ret = conj(ctx.st.g, stop)
        raised = [e for e in eff[opt[-1]:] if e.kind == 'raise']
        gone = FALSE
        for e in raised:
            if e.args[0].op == 's' and e.args[0].a[0].split('.')[-1] in (
                    'KeyboardInterrupt', 'reraise'):
                gone = disj(gone, e.g)
        silent = conj(stop, nt(gone))
        rep.holds('interrupted-solve-raises-' + tag, bool3(silent is FALSE, silent), site,
                  'an interrupted solve (status 11) goes on as if it were finished')
        other = [e for e in raised if conj(e.g, nt(stop)) is not FALSE]
        rep.holds('other-solves-return-' + tag, bool3(not other, *[e.g for e in other]),
                  other[0].site if other else site, 'an exception is raised although the solve '
                  'was not interrupted')


CATCH = ('KeyboardInterrupt', 'BaseException')


def catches(h):
    """does the handler catch KeyboardInterrupt?"""
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any((t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute)
                else '') in CATCH for t in ts)


def leaves(body):
    """True: always ends by raising; False: never raises; None: sometimes."""
    if not body:
        return False
    for i, s in enumerate(body):
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return None if any(isinstance(x, ast.Raise) for b in body[:i] for x in ast.walk(b)) \
                else False
        if isinstance(s, ast.If) and s.orelse:
            if leaves(s.body) is True and leaves(s.orelse) is True:
                return True
    if any(isinstance(x, (ast.Raise,)) for b in body for x in ast.walk(b)):
        return None
    return False


@rule('C24', 'nothing-swallows-it')
def c24_handlers(rep):
    n = 0
    for m in sorted(rep.prog.modules.values(), key=lambda m: m.name):
        if not m.name.startswith('src'):
            continue
        n += 1
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Try):
                for h in node.handlers:
                    if not catches(h):
                        continue
                    r = leaves(h.body)
                    calls = any(isinstance(x, (ast.Call, ast.For, ast.While, ast.Attribute))
                                for b in node.body for x in ast.walk(b))
                    rep.sites += 1
                    rep.holds('interruption-propagates', True if r or not calls else r,
                              (m.path, h.lineno, m.name),
                              'this handler also catches the interruption of the time limit and '
                              'goes on')
                for b in node.finalbody:
                    for x in ast.walk(b):
                        if isinstance(x, (ast.Return, ast.Break, ast.Continue)):
                            inner = any(isinstance(y, (ast.For, ast.While, ast.FunctionDef)) and
                                        x in ast.walk(y) for y in ast.walk(b))
                            rep.holds('interruption-propagates', None if inner else False,
                                      (m.path, x.lineno, m.name),
                                      'leaving the finally block discards the interruption')
            elif isinstance(node, ast.With):
                for it in node.items:
                    c = it.context_expr
                    if isinstance(c, ast.Call) and ast.unparse(c.func).split('.')[-1] == \
                            'suppress' and any(ast.unparse(a).split('.')[-1] in CATCH
                                               for a in c.args):
                        rep.bad('interruption-propagates', (m.path, c.lineno, m.name),
                                'the interruption of the time limit is suppressed')
            elif isinstance(node, ast.Call) and ast.unparse(node.func) in (
                    'signal.signal', 'signal.alarm', 'signal.setitimer', 'signal.pthread_sigmask'):
                rep.und('signals-are-set-in-main', (m.path, node.lineno, m.name),
                        'the handling of signals is changed here')
    rep.ok('interruption-propagates', 'src', '%d modules searched' % n)


@rule('C24', 'script-writes-results')
def c24_main(rep):
    for meth in (3, 4):
        tag = 'method-%d' % meth
        cname = 'AdaptivePartitioner'
        found = {}

        def prep(I):
            old = I.stubs[cname + '.solve']

            def h(I, f, env, st, node):
                found['tries'] = list(I.tries)
                found['at'] = len(I.trace)
                return old(I, f, env, st, node)
            I.stubs[cname + '.solve'] = h
        ctx, eff, o, site = run_main(rep.prog, meth, 0, prep)
        I = ctx.I
        rep.use(ctx)
        sol = [i for i, e in enumerate(eff) if e.kind == 'call:solve_' + cname]
        if not sol or 'tries' not in found:
            rep.und(tag + '-interrupted', site)
            continue
        at = sol[0]
        hs = [(t, h, e) for t in reversed(found['tries']) for t2, h, e in I.handlers
              if t2 is t and catches(h)]
        if not hs:
            rep.holds(tag + '-interruption-is-caught', False, eff[at].site,
                      'the time-out ends the script: no result file is written')
            continue
        rep.ok(tag + '-interruption-is-caught', eff[at].site)
        t, h, e = hs[0]
        hsite = (site[0], h.lineno, 'main')
        for kind_, what in (('call:set_final', 'final time'), ('call:write_details', 'result file'),
                            ('call:write_iter', 'iteration file')):
            g = FALSE
            end = FALSE     # the script was left in the handler
            for x in eff[at + 1:]:
                if x.kind == kind_:
                    g = disj(g, conj(x.g, nt(end)))
                elif x.kind == 'raise' and conj(x.g, nt(e)) is FALSE:
                    end = disj(end, x.g)
            lost = conj(e, nt(g))
            rep.holds('%s-%s-after-interruption' % (tag, what.replace(' ', '-')),
                      bool3(lost is FALSE, lost), hsite,
                      'the %s is not written when the time limit interrupts the method' % what)
        rep.sites += len(eff)
        # the alarm reaches the solver as an interrupt
        hd = [x for x in eff[:at] if x.kind == 'ext:signal.signal' and
              'SIGALRM' in tm.show(x.args[0])]
        if not hd:
            rep.holds(tag + '-alarm-handled', None if any(
                x.kind.startswith('ext:signal') for x in eff) else False, site,
                'no handler is installed for the alarm: the time-out kills the script')
            continue
        fn = hd[-1].args[1]
        try:
            _, e2 = take(ctx, lambda: I.call(fn, [sym('signum', 'int'), sym('frame', 'any')], {},
                                             ctx.st, None))
        except tm_dead():
            e2 = I.trace
        ok = any(x.kind == 'ext:signal.raise_signal' and 'SIGINT' in tm.show(x.args[0]) or
                 x.kind == 'ext:os.kill' and 'SIGINT' in tm.show(x.args[1]) for x in e2)
        rep.holds(tag + '-alarm-interrupts', True if ok else None if any(
            x.kind == 'raise' or x.kind.startswith('ext:') for x in e2) or is_soft(fn) else False,
            hd[-1].site, 'the handler of the alarm does not interrupt the solver')
