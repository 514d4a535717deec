"""Canonical effect traces, and three-valued comparison of terms and traces."""
import itertools
import os
from . import terms as tm
from . import evalt
from .terms import T, mk, TRUE, FALSE, subst, conj, disj, nt, var, num, ite, walk, restrict

DEBUG = os.environ.get('SA_DEBUG')
SOFT = {'unk', 'fold', 'undef', 'nan'}
SOFTAPP = {'whiletrip', 'foldsel'}
KV = [var('k', 'int') for _ in range(8)]


def soft_nodes(t):
    return [x for x in walk(t) if x.op in SOFT or
            (x.op == 'app' and x.a[0] in SOFTAPP)]


def is_soft(t):
    return bool(soft_nodes(t))


def spread(t):
    """ite over tuples of one shape -> tuple of ites."""
    if t.op == 'ite':
        ls = [(g, l) for g, l in tm.leafs(t, TRUE) if g is not FALSE]
        if ls and all(l.op == 'lit' and l.a[0] == ls[0][1].a[0] and len(l.a) == len(ls[0][1].a)
                      for _, l in ls):
            out = []
            for i in range(1, len(ls[0][1].a)):
                v = tm.lift(lambda x: x.a[i], t)
                if v is None:
                    return t
                out.append(spread(v))
            return tm.lit(ls[0][1].a[0], *out)
    if t.op == 'lit':
        return tm.lit(t.a[0], *[spread(x) if isinstance(x, T) else x for x in t.a[1:]])
    return t


def verdict(a, b):
    """'ok' | 'bad' | 'undecided' for two terms that should be equal."""
    if a is b:
        return 'ok'
    a, b = spread(a), spread(b)
    if a is b:
        return 'ok'
    return 'bad' if confirmed(a, b) else 'undecided'


_conf = {}
WITNESS = {}


def confirmed(a, b):
    """a distinguishing valuation of the two normal forms exists."""
    r = _conf.get((a, b), 0)
    if r == 0:
        r = evalt.differ(a, b)
        _conf[(a, b)] = r
    if DEBUG:
        print('   witness:', r)
    return isinstance(r, str)


class CEff:
    """canonical effect: kind, bounds of the quantifiers, args (over KV), guard, sites."""

    def __init__(self, kind, bounds, args, g, sites):
        self.kind, self.bounds, self.args, self.g, self.sites = kind, bounds, args, g, sites

    @property
    def key(self):
        return (self.kind, self.bounds, self.args)

    def map(self, m):
        return CEff(self.kind, tuple(subst(b, m) for b in self.bounds),
                    tuple(subst(a, m) if isinstance(a, T) else a for a in self.args),
                    subst(self.g, m), self.sites)

    def __repr__(self):
        q = ''.join(' for k%d<%s' % (i, tm.show(b)) for i, b in enumerate(self.bounds))
        g = '' if self.g is TRUE else ' if ' + tm.show(self.g)
        s = '%s(%s)%s%s' % (self.kind, ', '.join(tm.show(a, 9) for a in self.args), g, q)
        for i, k in enumerate(KV):
            s = s.replace(tm.show(k), 'k%d' % i)
        return s


def canon(effs, drop=()):
    """list of Eff -> list of CEff, guards of equal effects merged."""
    out = {}
    effs = list(effs)
    bnd = _varbounds(effs)
    for e in effs:
        if e.kind in drop:
            continue
        pieces = list(_split(_fixing(e, bnd)))
        for kind, qs, args, g in pieces:
            if g is FALSE:
                continue
            for kind, qs, args, g in _onepoint(kind, qs, args, g):
                qs, args, g = _splitidx(qs, args, g)
                qs = _order(qs, args, g)
                m = {}
                bounds = []
                for i, (v, n) in enumerate(qs):
                    bounds.append(subst(n, m))
                    m[v] = KV[i]
                c = CEff(kind, tuple(bounds), tuple(subst(a, m) for a in args), subst(g, m),
                         [e.site])
                # bound facts are implied
                c.g = _dropbounds(c.g, bounds)
                if c.g is FALSE:
                    continue
                p = out.get(c.key)
                if p is None:
                    out[c.key] = [c]
                else:
                    for q in p:
                        if conj(q.g, c.g) is FALSE:
                            q.g = disj(q.g, c.g)
                            q.sites = q.sites + c.sites
                            break
                    else:
                        p.append(c)
    r = []
    for p in out.values():
        r += p
    return r


def _varbounds(effs):
    """variable group -> its bounds (lower, upper, type) per index."""
    out = {}
    for e in effs:
        if e.kind == 'gvars' and isinstance(e.args[0], T) and e.args[0].op == 'grp':
            out.setdefault(e.args[0].a[:2], []).append(e.args[1])
    return {k: v[0] for k, v in out.items() if len(v) == 1}


def _gvar(x, bnd):
    """(lower, upper) of a decision variable with declared bounds."""
    if x.op != 'app' or x.a[0] != 'gvar' or len(x.a) != 4 or x.a[2].op != 'grp':
        return None
    t = bnd.get(x.a[2].a[:2])
    if t is None or tm.kind(t) is None:
        return None
    b = tm.idx(t, x.a[3])
    return b.a[1:3] if b.op == 'lit' and len(b.a) == 4 else None


def _fixing(e, bnd):
    """an inequality (or a bound) at which a variable is held to its own bound fixes it."""
    if e.kind in ('vattr', 'setattr') and len(e.args) == 3 and e.args[1].op == 's' and \
            e.args[1].a[0].lower() in ('ub', 'lb'):
        b = _gvar(e.args[0], bnd)
        up = e.args[1].a[0].lower() == 'ub'
        if b and e.args[2] is b[0 if up else 1]:
            mid = e.args[0].a[2].a[0]
            return type(e)('constr', (mid, tm.eq(e.args[0], e.args[2])), e.g, e.site, e.qs)
    if e.kind == 'constr' and isinstance(e.args[1], T) and e.args[1].op == 'le0':
        p = dict(tm.poly(e.args[1].a[0]))
        c0 = p.pop((), 0)
        if len(p) == 1:
            (m, co), = p.items()
            if len(m) == 1 and m[0][1] == 1:
                b = _gvar(m[0][0], bnd)
                if b and b[0 if co > 0 else 1] is num(-c0 / co):
                    return type(e)('constr', (e.args[0], tm.eq(m[0][0], num(-c0 / co))),
                                   e.g, e.site, e.qs)
    return e


def _dropbounds(g, bounds):
    for i, n in enumerate(bounds):
        g = restrict(g, conj(tm.le(num(0), KV[i]), tm.lt(KV[i], n)))
    return g


def _split(e):
    args = tm.lit('U', *[a if isinstance(a, T) else tm.const(a) for a in e.args])
    t = _liftargs(e.args)
    for g, l in tm.leafs(t, e.g):
        if g is FALSE:
            continue
        xs = l.a[1:] if l.op == 'lit' else e.args
        yield e.kind, list(e.qs), tuple(xs), g


def _liftargs(args):
    r = tm.lift(lambda *xs: tm.lit('U', *xs), *args)
    return r if r is not None else tm.lit('U', *args)


def _onepoint(kind, qs, args, g):
    """eliminate quantifiers pinned by an equality in the guard."""
    for i, (v, n) in enumerate(qs):
        for atom, val in tm.forced(g):
            if val and atom.op == 'eq0' and v in atom.fv:
                p = tm.poly(atom.a[0])
                c = None
                for mono, co in p.items():
                    if mono == ((v, 1),):
                        c = co
                    elif any(v in x.fv for x, _ in mono):
                        c = None
                        break
                if c is None or abs(c) != 1:
                    continue
                # v = -(rest)/c
                rest = tm.frompoly({mm: -co / c for mm, co in p.items() if mm != ((v, 1),)})
                if any(w in rest.fv for w, _ in qs[i + 1:]) or not tm.isint(rest):
                    continue
                m = {v: rest}
                g2 = conj(tm.le(num(0), rest), tm.lt(rest, n), subst(g, m))
                q2 = qs[:i] + [(w, subst(b, m)) for w, b in qs[i + 1:]]
                yield from _onepoint(kind, q2, tuple(subst(a, m) for a in args), g2)
                return
    yield kind, qs, args, g


def _splitidx(qs, args, g):
    """k < a*m with k used only as (k // m, k % m): two independent quantifiers."""
    out = list(qs)
    i = 0
    while i < len(out):
        v, n = out[i]
        ms = set()
        ok = True
        terms = list(args) + [g] + [b for _, b in out[i + 1:]]
        for t in terms:
            for x in walk(t):
                if x.op in ('fdiv', 'mod') and x.a[0] is v:
                    ms.add(x.a[1])
        if len(ms) == 1:
            m = next(iter(ms))
            q = tm.div(n, m)
            p, r = var('k', 'int'), var('k', 'int')
            tm.UPPER[p], tm.UPPER[r] = q, m
            if tm.isint(q) and tm.mul(q, m) is n:
                mp = {}

                def f(x):
                    if x.op == 'fdiv' and x.a[0] is v and x.a[1] is m:
                        return p
                    if x.op == 'mod' and x.a[0] is v and x.a[1] is m:
                        return r
                    return x
                f = lambda t: subst(t, {v: tm.add(tm.mul(p, m), r)})
                args = tuple(f(a) if isinstance(a, T) else a for a in args)
                g = f(g)
                out[i + 1:] = [(w, f(b)) for w, b in out[i + 1:]]
                out[i:i + 1] = [(p, q), (r, m)]
        i += 1
    return out, args, g


def _order(qs, args, g):
    """canonical order for independent nested quantifiers."""
    if len(qs) < 2:
        return qs
    fvs = [v for v, _ in qs]
    best = None
    occ = {}
    for i, t in enumerate(list(args) + [g]):
        for x in _preorder(t):
            if x in fvs and x not in occ:
                occ[x] = len(occ)
        if len(occ) == len(fvs):
            break
    rest = list(qs)
    out = []
    while rest:
        ok = [q for q in rest if not any(w in q[1].fv for w, _ in rest if w is not q[0])]
        ok = ok or rest
        ok.sort(key=lambda q: (tm.show(q[1]), occ.get(q[0], 99)))
        out.append(ok[0])
        rest.remove(ok[0])
    return out


def _preorder(t):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        ys = []

        def rec(a):
            for y in a:
                if type(y) is T:
                    ys.append(y)
                elif type(y) is tuple:
                    rec(y)
        rec(x.a)
        # polynomial monomials are id-ordered; good enough as a tie-break
        st.extend(reversed(ys))


def groups(effs):
    """grp term -> signature for each group of decision variables."""
    out = {}
    for c in effs:
        if c.kind == 'gvars':
            out.setdefault(c.args[0].a[:2], []).append((c.bounds, c.args[1], c.g))
    return out


def regroup(e, m):
    """rename variable groups (model, number) according to m."""
    def f(x):
        if x.op == 'grp' and x.a[:2] in m:
            return mk('grp', *m[x.a[:2]], *x.a[2:])
        return x
    return CEff(e.kind, tuple(tm.mapterm(b, f) for b in e.bounds),
                tuple(tm.mapterm(a, f) for a in e.args), tm.mapterm(e.g, f), e.sites)


def _base(grp):
    return grp


def match(code, spec, limit=24):
    """Compare two canonical traces up to a renaming of models and variable groups.

    Returns (missing, extra) lists of CEff (spec-side, code-side)."""
    cm = _models(code)
    sm = _models(spec)
    best = None
    for pm in _perms(cm, sm, 6):
        m1 = dict(pm)
        c1 = [e.map(m1) for e in code]
        cg, sg = groups(c1), groups(spec)
        for m2 in _group_maps(cg, sg, limit):
            c2 = [regroup(e, m2) for e in c1] if m2 else c1
            mis, ext = _msdiff(c2, spec)
            sc = len(mis) + len(ext)
            if best is None or sc < best[0]:
                best = (sc, mis, ext)
            if sc == 0:
                return [], []
    return best[1], best[2]


def _models(effs):
    out = []
    for c in effs:
        if c.kind == 'model' and c.args[0] not in out:
            out.append(c.args[0])
    return out


def _perms(cm, sm, limit):
    if not cm:
        yield {}
        return
    if len(cm) != len(sm):
        k = min(len(cm), len(sm))
        yield dict(zip(cm[:k], sm[:k]))
        return
    for i, p in enumerate(itertools.permutations(sm)):
        if i >= limit:
            return
        yield dict(zip(cm, p))


def _group_maps(cg, sg, limit):
    by = {}
    for g, s in cg.items():
        by.setdefault(_sig(s), ([], []))[0].append(g)
    for g, s in sg.items():
        by.setdefault(_sig(s), ([], []))[1].append(g)
    lists = []
    left_c, left_s = [], []
    for a, b in by.values():
        k = min(len(a), len(b))
        if len(a) == len(b):
            lists.append([list(zip(a, p)) for p in itertools.permutations(b)])
        else:
            lists.append([list(zip(a[:k], b[:k]))])
            left_c += a[k:]
            left_s += b[k:]
    # groups whose signature differs: pair them in order to get readable differences
    lists.append([list(zip(left_c, left_s))])
    cnt = 0
    for combo in itertools.product(*lists):
        cnt += 1
        if cnt > limit:
            return
        m = {}
        for l in combo:
            m.update(l)
        yield {a: b for a, b in m.items() if a != b}


def _sig(s):
    return tuple(sorted((str([b.id for b in x[0]]), x[1].id, x[2].id) for x in s))


def _msdiff(code, spec):
    sp = {}
    for e in spec:
        sp.setdefault(e.key, []).append(e)
    ext = []
    for e in code:
        p = sp.get(e.key)
        if p:
            hit = None
            for x in p:
                if x.g is e.g:
                    hit = x
                    break
            if hit is not None:
                p.remove(hit)
                continue
        ext.append(e)
    mis = [e for p in sp.values() for e in p]
    return mis, ext


def trace_verdict(mis, ext):
    if not mis and not ext:
        return 'ok'
    r = evalt.traces_differ(mis, ext)
    if DEBUG:
        print('   witness:', r)
    return 'bad' if isinstance(r, str) else 'undecided'
