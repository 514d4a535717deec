"""Obligations, verdicts and evidence."""
import os
from . import evalt
from . import terms as tm
from .compare import verdict, match, trace_verdict, canon, is_soft
from .interp import Dead, Limit
from .facts import Anchor


class Rep:
    def __init__(self, prop, prog):
        self.prop, self.prog = prop, prog
        self.obs = []            # (name, status, where, detail)
        self.visited = set()
        self.notes = []
        self.sites = 0

    # ---------------------------------------------------------------- recording
    def loc(self, site):
        if site is None:
            return '?'
        if isinstance(site, str):
            return site
        p, ln, q = site
        return '%s:%s (%s)' % (os.path.relpath(p, self.prog.root) if str(p).startswith('/')
                               else p, ln, q)

    def floc(self, f):
        return '%s:%s (%s)' % (os.path.relpath(f.mod.path, self.prog.root), f.node.lineno, f.qual)

    def add(self, name, status, where='', detail=''):
        self.obs.append((name, status, self.loc(where) if not isinstance(where, str) else where,
                         detail))

    def ok(self, name, where='', detail=''):
        self.add(name, 'ok', where, detail)

    def bad(self, name, where='', detail=''):
        self.add(name, 'bad', where, detail)

    def und(self, name, where='', detail=''):
        self.add(name, 'undecided', where, detail)

    def eq(self, name, code, spec, where='', what=''):
        v = verdict(code, spec)
        d = ''
        if v != 'ok':
            a, b = first_diff(code, spec)
            d = '%s: source computes %s; required %s' % (what or name, tm.show(a, 9),
                                                         tm.show(b, 9))
        self.add(name, v, where, d)
        return v == 'ok'

    def holds(self, name, cond, where='', detail=''):
        """cond: True ok / False violation / None undecided."""
        self.add(name, {True: 'ok', False: 'bad', None: 'undecided'}[cond], where,
                 '' if cond is True else detail)
        return cond is True

    def claims(self, proved, terms, claims, where='', effs=(), noraise=None, runs=150,
               gen=None, app=None):
        """claims: list of (name, predicate(ev, values) -> True or message).  They hold when
        the derived function equals the reference (`proved`); otherwise they are refuted by
        a valuation of the derived function, or undecided."""
        names = [n for n, _ in claims] + ([noraise] if noraise else [])
        if proved and not os.environ.get('SA_NOREF'):
            for n in names:
                self.ok(n, where)
            return True
        with evalt.joint(gen, app):
            out, rz = evalt.falsify([tm_ for tm_ in terms], [p for _, p in claims], effs, runs)
        for (n, _), r in zip(claims, out):
            if isinstance(r, str):
                self.bad(n, where, r)
            else:
                self.und(n, where, 'not equal to the reference, no refuting valuation found'
                         if r is False else 'not evaluable')
        if noraise:
            if rz:
                if isinstance(rz[1], str):
                    self.bad(noraise, where, '%s (valuation %s)' % (rz[1], rz[0]))
                else:
                    self.bad(noraise, rz[1], 'raises under valuation %s' % rz[0])
            else:
                self.und(noraise, where, 'not equal to the reference')
        return False

    def traces(self, name, code, spec, where='', drop=()):
        """code, spec: lists of Eff; compared as multisets of canonical effects."""
        c = [e for e in canon(code) if e.kind not in drop and not ignorable(e)]
        s = [e for e in canon(spec) if e.kind not in drop and not ignorable(e)]
        self.sites += len(c)
        mis, ext = match(c, s)
        v = trace_verdict(mis, ext)
        d = ''
        if v != 'ok':
            parts = []
            if ext:
                where = self.loc(ext[0].sites[0])
                parts.append('unexpected: ' + '; '.join(map(str, ext[:3])))
            if mis:
                parts.append('absent: ' + '; '.join(map(str, mis[:3])))
            d = ' | '.join(parts)
        self.add(name, v, where, d)
        return v == 'ok'

    def use(self, ctx):
        self.visited |= ctx.I.visited
        self.notes += [(a, b, self.loc(c)) for a, b, c in ctx.I.notes]

    def guard(self, name, fn, *a):
        """run one rule; engine limits are 'undecided', vanished anchors violations."""
        try:
            return fn(*a)
        except Anchor as e:
            self.add(name, 'bad', 'anchor', 'public entry point %s no longer exists' % e)
        except Dead:
            self.add(name, 'bad', name, 'every path of the analysed entry point raises')
        except Limit as e:
            self.add(name, 'undecided', name, 'analysis budget exhausted: %s' % e)
        except (RecursionError, MemoryError) as e:
            self.add(name, 'undecided', name, 'analysis budget exhausted: %s' % type(e).__name__)
        except Timeout:
            self.add(name, 'undecided', name, 'analysis time exhausted')
        except Exception as e:      # engine does not understand the construct
            if os.environ.get('SA_DEBUG'):
                raise
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.add(name, 'undecided', name, 'engine: %s %s at %s:%s' % (
                type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))


class Timeout(Exception):
    pass


def ignorable(e):
    if e.kind in ('print', 'raise', 'assert', 'alarm', 'sig_error_ok'):
        return True
    if e.kind == 'setattr':
        if e.args[1].op == 's' and e.args[1].a[0] in ('LogToConsole', 'OutputFlag', 'Lazy'):
            return True
    if e.kind == 'param' and e.args[1].op == 's' and e.args[1].a[0] in (
            'LogToConsole', 'OutputFlag'):
        return True
    return False


def first_diff(a, b, depth=0):
    """descend while exactly one child differs, to show a small difference."""
    while depth < 12:
        depth += 1
        if a.op != b.op or len(a.a) != len(b.a) or a.op in ('p', 'ite') or a.op in tm.BIND:
            return a, b
        d = [(x, y) for x, y in zip(a.a, b.a) if x is not y]
        if len(d) != 1 or not isinstance(d[0][0], tm.T) or not isinstance(d[0][1], tm.T):
            return a, b
        a, b = d[0]
    return a, b
