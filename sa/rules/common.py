"""helpers shared by the rule modules."""
import os
from .. import terms as tm
from .. import evalt
from ..terms import (mk, sym, var, num, const, tab, idx, app, TRUE, FALSE, NONE, subst, kind,
                     length, unk, lit, tsum, mmof, div, mul, add, sub, le, lt, eq, ite, nt,
                     conj, disj, floor, typ, restrict)
from ..facts import *
from ..facts import Ctx, SHAPE
from ..pyfront import Program
from ..compare import canon, match, verdict, is_soft, trace_verdict
from . import rule, about

SPECDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
if SHAPE:
    # scenarios dealt out in turn to two subsets
    L = num(2)
    PART = lit('L', *[lit('L', *[num(i) for i in range(SHAPE[0]) if i % 2 == j])
                      for j in range(2)])
else:
    L = sym('L', 'int')
    tm.POS.add(L)
    PART = sym('P', ('L', ('L', 'int')), (L, None))
    evalt.GEN[N] = lambda ev: ev.rng('N').choice((1, 2, 3, 4, 5, 6))
    evalt.GEN[L] = lambda ev: ev.rng('L').randint(1, ev.ev(N, {}))


def _partition(ev):
    """a random partition of the scenarios into L non-empty subsets."""
    n, l = int(ev.ev(N, {})), int(ev.ev(L, {}))
    r = ev.rng('P')
    xs = list(range(n))
    r.shuffle(xs)
    out = [[x] for x in xs[:l]]
    for x in xs[l:]:
        r.choice(out).append(x)
    return tuple(tuple(x) for x in out)


if not SHAPE:
    evalt.GEN[PART] = _partition
BIG = float('inf')
evalt.CLAMP.update({EPS: (0, num(0.95).a[0]), AA: (0, BIG), BB: (0, BIG), CC: (0, BIG),
                    PR: (0, 1)})


def _proba(ev):
    n = int(ev.ev(N, {}))
    r = ev.rng('proba')
    w = [1] * n if r.random() < 0.4 else [r.randint(1, 4) for _ in range(n)]
    return tuple(tm.Fraction(x, sum(w)) for x in w)


evalt.GEN[PR] = _proba


def load_specs(prog):
    for fn in sorted(os.listdir(SPECDIR)):
        if fn.endswith('.py'):
            nm = 'vspec.' + fn[:-3]
            if nm not in prog.modules:
                prog.load(nm, os.path.join(SPECDIR, fn))


def spec(ctx, mod, fname, *args, **kw):
    """lower a reference function; returns (value, effects)."""
    load_specs(ctx.prog)
    f = ctx.prog.modules['vspec.' + mod].defs[fname]
    mark = len(ctx.I.trace)
    vis = set(ctx.I.visited)
    nn = len(ctx.I.notes)
    v = ctx.I.call_func(f, list(args), kw, ctx.st, None)
    eff = ctx.I.trace[mark:]
    del ctx.I.trace[mark:]
    ctx.I.visited = vis
    assert len(ctx.I.notes) == nn, ctx.I.notes[nn:]
    return v, eff


def take(ctx, fn):
    """run fn and return (value, its effects)."""
    mark = len(ctx.I.trace)
    v = fn()
    eff = ctx.I.trace[mark:]
    del ctx.I.trace[mark:]
    return v, eff


def fsite(prog, cname, mname):
    c = prog.find_class(cname)
    f = prog.method(c, mname) if c else None
    if f is None:
        return cname + '.' + mname
    return (f.mod.path, f.node.lineno, f.qual)


def roundoff(rep, name, t, site):
    """epsilon*N is rounded in floating point (0.29*100 < 29), so wherever an integer is compared
    with it, or it is cut off to one, some slack has to be added."""
    m = mul(EPS, N)
    key = next(iter(tm.poly(m)))
    bad = None
    n = 0
    for x in tm.walk(t):
        if x.op not in ('floor', 'trunc', 'le0'):
            continue
        P = tm.poly(x.a[0])
        if abs(P.get(key, 0)) != 1:
            continue
        if all(k_ == key or k_ == () or tm.isint(tm.frompoly({k_: c})) for k_, c in P.items()):
            n += 1
            if P.get((), 0).__trunc__() == P.get((), 0):
                bad = bad or x
    rep.holds(name + '-tolerates-round-off', bad is None, site,
              'the floating-point product epsilon*N can fall below the integer it stands for '
              '(0.29*100 < 29), which changes %s' % (tm.show(bad, 4) if bad is not None else ''))
    return n


def holes(terms_or_effs, pred, default):
    """numeric constants of the analysed code that satisfy pred (either sign), default first
    if it occurs."""
    out = []
    ts = []
    for x in terms_or_effs:
        if isinstance(x, tm.T):
            ts.append(x)
        else:
            ts += [a for a in x.args if isinstance(a, tm.T)] + [x.g] + [b for _, b in x.qs]
    seen = set()
    for t in ts:
        for x in tm.walk(t, seen):
            cs = []
            if x.op == 'n':
                cs.append(x.a[0])
            elif x.op == 'p':
                cs += [c for _, c in x.a[0]]
            for c in cs:
                for v in (c, -c):
                    if pred(v) and v not in out:
                        out.append(v)
    d = num(default).a[0]
    out.sort(key=lambda v: (v != d, abs(v), v))
    return [num(v) for v in out] or [num(default)]


def traces_hole(rep, name, code, mkspec, cands, site, drop=()):
    """compare against mkspec(c) for each admissible constant c; the best one is reported."""
    best = None
    for c in cands:
        r2 = type(rep)(rep.prop, rep.prog)
        r2.traces(name, code, mkspec(c), site, drop)
        st = r2.obs[0][1]
        rk = {'ok': 0, 'undecided': 1, 'bad': 2}[st]
        if best is None or rk < best[0]:
            best = (rk, r2)
        if rk == 0:
            break
    rep.obs += best[1].obs
    rep.sites += best[1].sites
    return best[0] == 0


def eq_hole(rep, name, code, mkspec, cands, site, what=''):
    best = None
    for c in cands:
        s = mkspec(c)
        v = verdict(code, s)
        rk = {'ok': 0, 'undecided': 1, 'bad': 2}[v]
        if best is None or rk < best[0]:
            best = (rk, s)
        if rk == 0:
            break
    rep.eq(name, code, best[1], site, what)
    return best[0] == 0


def soft_any(*ts):
    return any(is_soft(t) for t in ts)


def bool3(ok, *ts):
    """FALSE claim is a violation only when nothing soft is involved."""
    return True if ok else (None if soft_any(*ts) else False)
