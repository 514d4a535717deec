"""Identity testing of normal forms.

Two terms that did not normalise to the same node may still denote the same
function.  Before a difference is reported it has to be confirmed by a
*distinguishing valuation*: concrete numbers for the free symbols (problem data,
uninterpreted solver answers, ...) for which the two normal forms take different
values.  Nothing of the analysed program is executed: what is evaluated is the
value-graph the abstract interpreter derived for it, and the specification's.

Thresholds matter in this code base (1e-8 style tolerances), so next to random
valuations there are *directed* ones: a comparison atom that occurred during the
evaluation is picked and one input is shifted so that the comparison is decided
by a tiny margin.
"""
import math
import random
import os
import time
import zlib
from fractions import Fraction
from . import terms as tm
from .terms import T

INF = float('inf')


class Unk(Exception):
    """the valuation does not determine a value (opaque construct, bad index)."""


class OutOfRange(Unk):
    """a value is read outside its sequence."""


class CondRange(Unk):
    """a condition reads a value outside its sequence."""


class Diverge(Unk):
    """a loop whose exit condition stays false for every iteration tried."""


class Tok:
    """value of an opaque type; distinct opaque applications are distinct tokens."""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Tok) and o.k == self.k

    def __hash__(self):
        return hash(('tok', self.k))

    def __repr__(self):
        return 'Tok(%r)' % (self.k,)


class Lazy:
    """sequence of unknown length, elements drawn on demand."""
    __slots__ = ('k', 'ty')

    def __init__(self, k, ty):
        self.k, self.ty = k, ty

    def __eq__(self, o):
        return isinstance(o, Lazy) and o.k == self.k

    def __hash__(self):
        return hash(('lazy', self.k))

    def __repr__(self):
        return 'Lazy(%r)' % (self.k,)


class DV:
    """dictionary in insertion order."""
    __slots__ = ('it',)

    def __init__(self, it=()):
        self.it = tuple(it)

    def get(self, k):
        for a, b in self.it:
            if same(a, k):
                return b
        raise Unk('key')

    def set(self, k, v):
        out = []
        hit = False
        for a, b in self.it:
            if same(a, k):
                out.append((a, v))
                hit = True
            else:
                out.append((a, b))
        if not hit:
            out.append((k, v))
        return DV(out)

    def rem(self, k):
        out = [(a, b) for a, b in self.it if not same(a, k)]
        if len(out) == len(self.it):
            raise Unk('key')
        return DV(out)

    def __eq__(self, o):
        return isinstance(o, DV) and o.it == self.it

    def __hash__(self):
        return hash(('dv', self.it))

    def __repr__(self):
        return 'DV%r' % (self.it,)


def isnum(x):
    return isinstance(x, (int, Fraction, float)) and not isinstance(x, bool)


def same(a, b):
    if isinstance(a, bool) and isnum(b) or isinstance(b, bool) and isnum(a):
        a, b = int(a), int(b)
    if isnum(a) and isnum(b):
        if a == b:
            return True
        if a in (INF, -INF) or b in (INF, -INF):
            return False
        return abs(a - b) <= Fraction(1, 10**12) * (1 + abs(a))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, DV) and isinstance(b, DV):
        # insertion order is not part of a dictionary's value
        if len(a.it) != len(b.it):
            return False
        rest = list(b.it)
        for k, v in a.it:
            for i, (k2, v2) in enumerate(rest):
                if same(k, k2):
                    if not same(v, v2):
                        return False
                    del rest[i]
                    break
            else:
                return False
        return True
    return a == b


# symbol -> function(ev) giving its value; set by the rule modules
GEN = {}
# symbol -> (lo, hi) admissible values of its numeric leaves
CLAMP = {}
# uninterpreted function -> function(ev, args) giving its value
APP = {}


class joint:
    """temporarily other generators (jointly constrained inputs)."""

    def __init__(self, gen=None, app=None):
        self.g, self.p = gen or {}, app or {}

    def __enter__(self):
        self.old = dict(GEN), dict(APP)
        GEN.update(self.g)
        APP.update(self.p)

    def __exit__(self, *a):
        for d, o in zip((GEN, APP), self.old):
            d.clear()
            d.update(o)

_fb = {}


def freeb(t):
    """bound variables occurring free in t."""
    r = _fb.get(t)
    if r is not None:
        return r
    if t.op in ('B', 'var'):
        r = frozenset([t])
    else:
        r = frozenset()
        st = [t.a]
        while st:
            for x in st.pop():
                if type(x) is T:
                    r |= freeb(x)
                elif type(x) is tuple:
                    st.append(x)
        if t.op in tm.BIND:
            h = t.a[0]
            r = frozenset(b for b in r if b.op != 'B' or b.a[0] != h)
    _fb[t] = r
    return r


DELTAS = [Fraction(s) * d for d in (Fraction(1, 10**9), Fraction(1, 10**8) * 5, Fraction(1, 10**7) * 5,
                                    Fraction(1, 10**6) * 5, Fraction(1, 10**5),
                                    Fraction(1, 10**4) * 5, Fraction(1, 10**3) * 5,
                                    Fraction(1, 100), Fraction(0))
          for s in (1, -1)]


class Eval:
    MAXSTEPS = 400000

    def __init__(self, seed, salt=0):
        self.seed = seed
        self.salt = salt
        self.memo = {}
        self.over = {}          # leaf key -> value
        self.leaf = {}          # leaf key -> value handed out
        self.atoms = []         # (le0 term, env, value)
        self.steps = 0
        self.depth = 0
        self.ext = None         # value of what is read outside a sequence, or an error

    def rng(self, *key):
        return random.Random(zlib.crc32(repr((self.seed,) + key).encode()) * 7919 + self.seed)

    # ---------------------------------------------------------------- leaves
    def num(self, key, clamp=None):
        if key in self.over:
            v = self.over[key]
        else:
            r = self.rng('num', key)
            z = r.random()
            if z < 0.25:
                v = Fraction(r.randint(0, 3))
            elif z < 0.9:
                v = Fraction(r.randint(1, 96), r.choice((8, 16, 32)))
            else:
                v = -Fraction(r.randint(1, 64), 16)
            if v > 0 and self.seed % 7 == 3:
                v *= 10**7              # nothing bounds the size of the data
            if clamp is not None:
                lo, hi = clamp
                if not lo <= v <= hi:
                    v = lo + (hi - lo) * Fraction(r.randint(0, 40), 40) if hi != INF \
                        else lo + abs(v)
        self.leaf[key] = (v, clamp)
        return v

    def gen(self, ty, key, dims=None, clamp=None):
        if ty == 'num':
            return self.num(key, clamp)
        r = self.rng('g', key)
        if ty == 'int':
            return self.over.get(key, r.randint(0, 3))
        if ty == 'bool':
            return r.random() < 0.5
        if ty == 'str':
            return 's%d' % r.randint(0, 50)
        if isinstance(ty, tuple) and len(ty) > 1 and ty[0] in ('L', 'A', 'U'):
            if dims and dims[0] is not None:
                n = self.ev(dims[0], {})
                return tuple(self.gen(ty[1], key + (i,), dims[1:], clamp) for i in range(int(n)))
            return Lazy(key, ty[1])
        if ty == 'none':
            return None
        return Tok(key)

    def seq(self, x):
        """materialise a sequence."""
        if isinstance(x, Lazy):
            n = self.lazylen(x)
            return tuple(self.gen(x.ty, x.k + (i,)) for i in range(n))
        if isinstance(x, tuple):
            return x
        if isinstance(x, frozenset):
            try:
                return tuple(sorted(x))
            except TypeError:
                raise Unk('set order')
        if isinstance(x, DV):
            return tuple(k for k, _ in x.it)
        raise Unk('not a sequence')

    def lazylen(self, x):
        return self.rng('len', x.k).choice((0, 1, 2, 2, 3, 3, 4))

    # ---------------------------------------------------------------- evaluation
    def ev(self, t, env):
        op = t.op
        if op == 'n':
            v = t.a[0]
            return v.numerator if v.denominator == 1 else v
        if op == 'B' or op == 'var':
            try:
                return env[t]
            except KeyError:
                if op == 'var':
                    return self.freevar(t)
                raise Unk('unbound')
        fb = freeb(t)
        if fb:
            key = (t, tuple((env.get(b) for b in sorted(fb, key=lambda b: b.id))))
        else:
            key = t
        try:
            r = self.memo.get(key, self)
        except TypeError:
            r = self
            key = None
        if r is not self:
            if isinstance(r, Unk):
                raise r
            return r
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Unk('steps')
        f = getattr(self, 'e_' + op, None)
        if f is None:
            raise Unk('op ' + op)
        try:
            r = f(t, env)
        except Unk as e:
            if key is not None:
                self.memo[key] = e
            raise
        except (TypeError, ValueError, ZeroDivisionError, OverflowError, AttributeError,
                IndexError) as e:
            u = Unk('%s %s' % (op, e))
            if key is not None:
                self.memo[key] = u
            raise u
        if type(r) is Fraction and r.denominator == 1:
            r = r.numerator
        elif type(r) is tuple and op in ('tab', 'ftab', 'flat', 'cat') and tm.kind(t) == 'S':
            try:
                r = frozenset(r)
            except TypeError:
                raise Unk('unhashable')
        if key is not None:
            self.memo[key] = r
        return r

    def freevar(self, t):
        if t in GEN:
            return GEN[t](self)
        name, n, ty = t.a[0], t.a[1], t.a[2]
        up = tm.UPPER.get(t)
        if name == 'k' or up is not None:
            if up is None:
                return self.rng('var', n).randint(0, 2)
            u = self.ev(up, {})
            if u == INF:
                u = 4
            if u <= 0:
                raise Unk('empty range')
            return self.rng('var', n).randrange(int(u))
        return self.gen(ty, ('var', n), t.a[3])

    def nums(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, bool):
            return int(v)
        if not isnum(v):
            raise Unk('number expected')
        return v

    # constants
    def e_b(self, t, env):
        return t.a[0]

    def e_s(self, t, env):
        return t.a[0]

    def e_none(self, t, env):
        return None

    def e_inf(self, t, env):
        return INF * t.a[0]

    def e_sym(self, t, env):
        g = GEN.get(t)
        if g is not None:
            return g(self)
        ty = t.a[1]
        if ty == 'int':
            r = self.rng('sym', t.a[0])
            if t in tm.POS:
                return r.choice((1, 2, 2, 3))
            return r.randint(0, 3)
        return self.gen(ty, ('sym', t.a[0]), t.a[2], CLAMP.get(t))

    def opaque(self, t, env):
        return Tok(('t', t.id))
    e_ref = e_fnv = e_clsv = e_ext = e_bound = e_meth = e_ellipsis = e_modv = opaque
    e_bytes = opaque

    def e_mdl(self, t, env):
        return Tok(('t', t.id))

    def e_cref(self, t, env):
        # a reference to a row denotes the row (up to positive scaling, see normrel)
        return ('cref', self.ev(t.a[0], env), relval(self, t.a[1], env))

    def e_grp(self, t, env):
        return Tok(('grp',) + tuple(x.id if isinstance(x, T) else x for x in t.a[:2]))

    # arithmetic
    def e_p(self, t, env):
        r = 0
        for m, c in t.a[0]:
            v = c
            for x, e in m:
                y = self.nums(x, env)
                if e < 0:
                    if y == 0:
                        raise Unk('1/0')
                    if y in (INF, -INF):
                        v = 0
                        continue
                    v = v * Fraction(1) / (Fraction(y) ** -e)
                else:
                    if y in (INF, -INF) and v == 0:
                        raise Unk('nan')
                    if v in (INF, -INF) and y == 0:
                        raise Unk('nan')
                    v = v * y ** e
            if r in (INF, -INF) and v == -r:
                raise Unk('nan')
            r = r + v
        return r

    def e_pa(self, t, env):
        return self.ev(t.a[0], env)

    def e_max(self, t, env):
        return max(self.nums(x, env) for x in t.a)

    def e_min(self, t, env):
        return min(self.nums(x, env) for x in t.a)

    def e_abs(self, t, env):
        return abs(self.nums(t.a[0], env))

    def e_floor(self, t, env):
        return math.floor(self.nums(t.a[0], env))

    def e_trunc(self, t, env):
        return int(self.nums(t.a[0], env))

    def e_fdiv(self, t, env):
        a, b = self.nums(t.a[0], env), self.nums(t.a[1], env)
        return a // b

    def e_mod(self, t, env):
        a, b = self.nums(t.a[0], env), self.nums(t.a[1], env)
        return a % b

    def e_pow(self, t, env):
        a, b = self.nums(t.a[0], env), self.nums(t.a[1], env)
        if a < 0 and b != int(b):
            raise Unk('nan')
        if a == 0 and b < 0:
            raise Unk('1/0')
        if isinstance(b, int) and abs(b) < 10:
            return Fraction(a) ** b
        if b == Fraction(1, 2):
            f = Fraction(a)
            p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if p * p == f.numerator and q * q == f.denominator:
                return Fraction(p, q)
            # 40 exact digits
            s = 10 ** 40
            return Fraction(math.isqrt(int(f * s * s)), s)
        return Fraction(float(a) ** float(b))

    def e_round(self, t, env):
        a, b = self.nums(t.a[0], env), self.ev(t.a[1], env)
        return Fraction(round(Fraction(a), int(b or 0)))

    # boolean
    def cond(self, t, env):
        """conditions are reordered by the normal form: a bad index in one is not an error."""
        try:
            return self.ev(t, env)
        except OutOfRange as e:
            raise CondRange(str(e))

    def e_ite(self, t, env):
        c = self.cond(t.a[0], env)
        if not isinstance(c, bool):
            raise Unk('condition')
        return self.ev(t.a[1] if c else t.a[2], env)

    def e_le0(self, t, env):
        v = self.nums(t.a[0], env)
        if len(self.atoms) < 400:
            self.atoms.append((t, env, v))
        if v in (INF, -INF):
            return v < 0
        return v <= 0 if decided(v) else None

    def e_eq0(self, t, env):
        x = t.a[0]
        if x.op == 'p' and len(x.a[0]) == 2 and x.a[0][0][1] == -x.a[0][1][1]:
            ms = [m for m, _ in x.a[0]]
            if all(len(m) == 1 and m[0][1] == 1 for m in ms):
                a, b = [self.ev(m[0][0], env) for m in ms]
                if a is None or b is None:      # comparison with None
                    return a is b
        v = self.nums(t.a[0], env)
        if len(self.atoms) < 400:
            self.atoms.append((t, env, v))
        if v in (INF, -INF):
            return False
        return v == 0 if decided(v) else None

    def e_eq(self, t, env):
        return same(self.ev(t.a[0], env), self.ev(t.a[1], env))

    def e_truthy(self, t, env):
        v = self.ev(t.a[0], env)
        if isinstance(v, (Lazy,)):
            return self.lazylen(v) > 0
        if isinstance(v, DV):
            return len(v.it) > 0
        if isinstance(v, Tok):
            return self.rng('truthy', v.k).random() < 0.7
        return bool(v)

    def e_mem(self, t, env):
        x, s = self.ev(t.a[0], env), self.ev(t.a[1], env)
        if isinstance(s, frozenset):
            return x in s
        if isinstance(s, str):
            return x in s
        return any(same(x, y) for y in self.seq(s))

    def e_ind(self, t, env):
        return ('ind', self.ev(t.a[0], env), self.ev(t.a[1], env))

    # binders
    def rangeof(self, n, env):
        v = self.nums(n, env)
        if v == INF:
            return 64
        return max(0, int(v))

    def bodies(self, t, env, n=None):
        h, ub, bd = tm._split_args(t)
        if n is None:
            n = ub[-1] if t.op != 'scat' else ub[1]
        b = tm.B(h, 0, 'int', True)
        for i in range(self.rangeof(n, env)):
            e = dict(env)
            e[b] = i
            yield e, bd

    def e_tab(self, t, env):
        return tuple(self.ev(bd[0], e) for e, bd in self.bodies(t, env))

    def e_ftab(self, t, env):
        return tuple(self.ev(bd[1], e) for e, bd in self.bodies(t, env) if self.cond(bd[0], e))

    def e_flat(self, t, env):
        out = ()
        for e, bd in self.bodies(t, env):
            out += self.seq(self.ev(bd[0], e))
        return out

    def e_sum(self, t, env):
        r = 0
        for e, bd in self.bodies(t, env):
            v = self.nums(bd[0], e)
            if r in (INF, -INF) and v == -r:
                raise Unk('nan')
            r = r + v
        return r

    def e_prod(self, t, env):
        r = 1
        for e, bd in self.bodies(t, env):
            r = r * self.nums(bd[0], e)
        return r

    def e_any(self, t, env):
        for e, bd in self.bodies(t, env):
            if self.cond(bd[0], e):
                return True
        return False

    def e_first(self, t, env):
        i = 0
        for e, bd in self.bodies(t, env):
            if self.cond(bd[0], e):
                return i
            i += 1
        h, ub, bd = tm._split_args(t)
        if self.nums(ub[-1], env) == INF:
            raise Diverge('no bound')
        return i

    def e_maxof(self, t, env):
        r = -INF
        for e, bd in self.bodies(t, env):
            r = max(r, self.nums(bd[0], e))
        return r

    def e_minof(self, t, env):
        r = INF
        for e, bd in self.bodies(t, env):
            r = min(r, self.nums(bd[0], e))
        return r

    def e_scat(self, t, env):
        base = self.ev(t.a[1], env)
        for e, bd in self.bodies(t, env, t.a[2]):
            if self.cond(bd[2], e):
                base = self.put(base, self.ev(bd[0], e), self.ev(bd[1], e))
        return base

    def put(self, base, k, v):
        if isinstance(base, DV):
            return base.set(k, v)
        xs = list(self.seq(base))
        if not isinstance(k, int):
            raise Unk('index')
        if not -len(xs) <= k < len(xs):
            raise Unk('index range')
        xs[k] = v
        return tuple(xs)

    # sequences
    def e_lit(self, t, env):
        xs = tuple(self.ev(x, env) for x in t.a[1:])
        if t.a[0] == 'S':
            return frozenset(xs)
        return xs

    def e_dict0(self, t, env):
        return DV()

    def e_cat(self, t, env):
        out = ()
        for x in t.a[1:]:
            v = self.ev(x, env)
            out += tuple(v) if isinstance(v, frozenset) else self.seq(v)
        return out

    def e_as(self, t, env):
        v = self.ev(t.a[1], env)
        if t.a[0] == 'S':
            return frozenset(self.seq(v))
        if isinstance(v, (frozenset, DV)):
            return self.seq(v)
        return v

    def e_store(self, t, env):
        return self.put(self.ev(t.a[0], env), self.ev(t.a[1], env), self.ev(t.a[2], env))

    def e_delat(self, t, env):
        b, k = self.ev(t.a[0], env), self.ev(t.a[1], env)
        if isinstance(b, DV):
            if self.ext is not None and not any(same(a, k) for a, _ in b.it):
                return b
            return b.rem(k)
        xs = list(self.seq(b))
        if not -len(xs) <= k < len(xs):
            raise Unk('index range')
        del xs[int(k)]
        return tuple(xs)

    def e_len(self, t, env):
        v = self.ev(t.a[0], env)
        if isinstance(v, Lazy):
            return self.lazylen(v)
        if isinstance(v, DV):
            return len(v.it)
        if isinstance(v, (tuple, str, frozenset)):
            return len(v)
        if isinstance(v, Tok):
            return self.rng('toklen', v.k).choice((1, 2, 3))
        raise Unk('len')

    def e_idx(self, t, env):
        x, i = self.ev(t.a[0], env), self.ev(t.a[1], env)
        if isinstance(x, DV):
            if self.ext is not None and not any(same(a, i) for a, _ in x.it):
                if x.it and isinstance(x.it[0][1], tuple):
                    return ()
                return self.extension(tm.typ(t))
            return x.get(i)
        if isinstance(x, tuple):
            if isinstance(i, int) and not isinstance(i, bool) and -len(x) <= i < len(x):
                return x[i]
            if isinstance(i, int) and not isinstance(i, bool):
                if self.ext is not None:
                    return self.extension(tm.typ(t))
                raise OutOfRange('index %d of a sequence of %d' % (i, len(x)))
            raise Unk('index range')
        if isinstance(x, Lazy):
            if not isinstance(i, int) or i < 0:
                raise Unk('index')
            return self.gen(x.ty, x.k + (i,))
        if isinstance(x, Tok):
            return self.gen(tm.typ(t), ('idx', x.k, i))
        raise Unk('index of %s' % type(x).__name__)

    def extension(self, ty):
        """a value for what is read outside its sequence."""
        if ty in ('int', 'any', None):
            return self.ext
        if ty == 'num':
            return Fraction(self.ext)
        if ty == 'bool':
            return bool(self.ext % 2)
        if isinstance(ty, tuple) and ty[0] == 'L':
            return ()
        raise Unk('index range %s' % (ty,))

    def e_sort(self, t, env):
        return tuple(sorted(self.seq(self.ev(t.a[0], env))))

    # strings
    def text(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, bool) or v is None or isinstance(v, int):
            return str(v)
        if isinstance(v, Fraction):
            return str(float(v))
        raise Unk('text')

    def e_str(self, t, env):
        return self.text(self.ev(t.a[0], env))

    def e_strcat(self, t, env):
        return ''.join(self.text(self.ev(x, env)) for x in t.a)

    def e_fmt(self, t, env):
        v = self.ev(t.a[1], env)
        if isinstance(v, Fraction):
            v = float(v)
        return format(v, t.a[0]) if isinstance(t.a[0], str) else Tok(('fmt', t.a[0], v))

    def e_strmul(self, t, env):
        a, b = self.ev(t.a[0], env), self.ev(t.a[1], env)
        return a * b

    # applications
    def e_app(self, t, env):
        fn, ty = t.a[0], t.a[1]
        f = getattr(self, 'a_' + fn, None) if fn.isidentifier() else None
        if f is not None:
            return f(t, env)
        if fn in ('whiletrip',):
            raise Unk(fn)
        args = tuple(self.ev(x, env) if isinstance(x, T) else x for x in t.a[2:])
        if fn in APP:
            return APP[fn](self, args)
        if fn == 'gvar':
            return self.num(('gvar', self.salt) + args)
        if fn in ('gattr', 'grb', 'X', 'cost'):
            return self.gen(ty, (fn,) + args)
        return self.gen(ty, ('app', fn) + args)

    def a_foldsel(self, t, env):
        f, j = t.a[2], t.a[3]
        j = int(self.ev(j, env)) if isinstance(j, T) else j
        h, ub, bd = tm._split_args(f)
        n, tys = ub
        m = len(tys)
        nn = self.rangeof(n, env)
        b0 = tm.B(h, 0, 'int', True)
        bs = [tm.B(h, i + 1, ty, False) for i, ty in enumerate(tys)]
        e = dict(env)
        e[b0] = 0
        cur = [self.ev(x, e) for x in bd[:m]]
        for i in range(nn):
            e = dict(env)
            e[b0] = i
            e.update(zip(bs, cur))
            cur = [self.ev(x, e) for x in bd[m:2 * m]]
        return cur[j]

    def a_argsort(self, t, env):
        xs = self.seq(self.ev(t.a[2], env))
        return tuple(sorted(range(len(xs)), key=lambda i: xs[i]))

    def a_perm(self, t, env):
        xs = list(self.seq(self.ev(t.a[2], env)))
        rest = tuple(self.ev(x, env) if isinstance(x, T) else x for x in t.a[3:])
        self.rng('perm', tuple(xs), rest).shuffle(xs)
        return tuple(xs)

    def a_unique(self, t, env):
        return tuple(sorted(set(self.seq(self.ev(t.a[2], env)))))

    def a_toset(self, t, env):
        return frozenset(self.seq(self.ev(t.a[2], env)))
    a_frozenset = a_toset

    def a_float(self, t, env):
        v = self.ev(t.a[2], env)
        if isnum(v) or isinstance(v, bool):
            return v
        return self.gen('num', ('app', 'float', v))

    def a_int(self, t, env):
        v = self.ev(t.a[2], env)
        if isnum(v) or isinstance(v, bool):
            return int(v)
        return self.gen('int', ('app', 'int', v))

    def a_isnan(self, t, env):
        self.ev(t.a[2], env)
        return False

    def a_slice(self, t, env):
        x = self.seq(self.ev(t.a[2], env))
        a = [self.ev(y, env) for y in t.a[3:6]]
        return x[slice(*a)]

    def a_keys(self, t, env):
        return self.seq(self.ev(t.a[2], env))

    def a_isclose(self, t, env):
        a, b = [self.nums(x, env) for x in t.a[2:4]]
        return abs(a - b) <= Fraction(1, 10**8) + Fraction(1, 10**5) * abs(b)

    def a_allclose(self, t, env):
        a, b = [self.ev(x, env) for x in t.a[2:4]]
        if a is None or b is None:
            raise Unk('allclose')
        a, b = self.seq(a), self.seq(b)
        return len(a) == len(b) and all(
            abs(x - y) <= Fraction(1, 10**8) + Fraction(1, 10**5) * abs(y) for x, y in zip(a, b))

    def a_array_equal(self, t, env):
        return same(self.seq(self.ev(t.a[2], env)), self.seq(self.ev(t.a[3], env)))

    def a_is_integer(self, t, env):
        v = self.nums(t.a[2], env)
        return v == int(v)


# ---------------------------------------------------------------- witnesses
SALTS = 3


def relval(ev, t, env):
    """value of a constraint/objective argument under one assignment of the decisions."""
    if t.op in ('le0', 'eq0'):
        return (t.op, ev.nums(t.a[0], env))
    if t.op == 'ind':
        return ('ind', relval(ev, t.a[0], env), relval(ev, t.a[1], env))
    if t.op == 'ite' and tm.typ(t) == 'bool':
        c = ev.ev(t.a[0], env)
        return relval(ev, t.a[1] if c else t.a[2], env)
    return ev.ev(t, env)


def normrel(vals):
    """vals: relation values under several assignments; equal up to positive scaling."""
    v0 = vals[0]
    if isinstance(v0, tuple) and v0 and v0[0] in ('le0', 'eq0') and len(v0) == 2:
        xs = [v[1] for v in vals]
        if all(x == xs[0] for x in xs):
            # no decision occurs with a coefficient other than zero
            return xs[0] <= 0 if v0[0] == 'le0' else xs[0] == 0
        s = next((abs(x) for x in xs if x != 0), 1)
        if v0[0] == 'eq0':
            s = next((x for x in xs if x != 0), 1)
        return (v0[0],) + tuple(Fraction(x) / Fraction(s) for x in xs)
    if isinstance(v0, tuple) and v0 and v0[0] == 'ind':
        return ('ind', normrel([v[1] for v in vals]), normrel([v[2] for v in vals]))
    if isinstance(v0, tuple) and v0 and v0[0] == 'cref':
        return ('cref', v0[1], normrel([v[2] for v in vals]))
    return vals[0] if all(v == v0 for v in vals) else tuple(vals)


class Pair:
    """the two sides of a comparison under one valuation."""

    def __init__(self, a, b, seed):
        self.a, self.b, self.seed = a, b, seed
        self.evs = None

    def fresh(self, over):
        e = Eval(self.seed)
        e.over = over
        return e

    def run(self, over):
        """None: undetermined; else (values differ?, evaluator)"""
        e = self.fresh(over)
        try:
            x, y = e.ev(self.a, {}), e.ev(self.b, {})
            if isinstance(x, Lazy) or isinstance(y, Lazy):
                if x == y:
                    return False, e
                x, y = e.seq(x), e.seq(y)
            return (not same(x, y)), e
        except Unk:
            return None, e
        except RecursionError:
            return None, e


def effvals(effs, seed, over):
    """multiset of concrete effects under one valuation (list of hashables)."""
    evs = [Eval(seed, s) for s in range(SALTS)]
    for e in evs:
        e.over = over
    e0 = evs[0]
    out = []
    from .compare import KV

    def go(c, i, env):
        if i < len(c.bounds):
            for k in range(e0.rangeof(c.bounds[i], env)):
                e = dict(env)
                e[KV[i]] = k
                go(c, i + 1, e)
            return
        g = e0.ev(c.g, env)
        if not isinstance(g, bool):
            raise Unk('guard')
        if not g:
            return
        vals = []
        for a in c.args:
            if not isinstance(a, T):
                vals.append(a)
                continue
            if hasgvar(a) or a.op in ('le0', 'eq0', 'ind', 'cref'):
                vals.append(normrel([relval(ev, a, env) for ev in evs]))
            else:
                vals.append(relval(e0, a, env))
        out.append((c.kind, tuple(vals)))
        if len(out) > 3000:
            raise Unk('effects')
    for c in effs:
        go(c, 0, {})
    return out, e0


_hg = {}


def hasgvar(t):
    r = _hg.get(t)
    if r is None:
        r = any(x.op == 'app' and x.a[0] == 'gvar' for x in tm.walk(t))
        _hg[t] = r
    return r


def decided(v):
    """a rounded value too close to zero does not settle a comparison."""
    if isinstance(v, float) and v != 0 and abs(v) <= 1e-10:
        raise Unk('rounding')
    return True


class TracePair:
    def __init__(self, a, b, seed):
        self.a, self.b, self.seed = a, b, seed

    def run(self, over):
        e0 = None
        try:
            x, e0 = effvals(self.a, self.seed, over)
            y, e1 = effvals(self.b, self.seed, over)
            e0.atoms += e1.atoms
            e0.leaf.update(e1.leaf)
        except (Unk, RecursionError, TypeError):
            return None, e0 or Eval(self.seed)
        if len(x) != len(y):
            return True, e0
        rest = list(y)
        for v in x:
            for i, w in enumerate(rest):
                if v[0] == w[0] and same(v[1], w[1]):
                    del rest[i]
                    break
            else:
                return True, e0
        return False, e0


def witness(mkpair, budget=20.0, base=60, directed=8, need=1):
    """True: a distinguishing valuation exists; False: none found although valuations were
    determined; None: no valuation could be evaluated."""
    t0 = time.time()
    seen = 0
    for seed in range(base):
        if time.time() - t0 > budget:
            break
        p = mkpair(seed)
        d, e = p.run({})
        if d:
            return ('seed %d' % seed)
        if d is None:
            # an undetermined valuation may still have atoms to steer by
            continue
        seen += 1
        rnd = random.Random(seed)
        atoms = [x for x in e.atoms if x[2] not in (INF, -INF)]
        leaves = [k for k, (v, c) in e.leaf.items()]
        if not atoms or not leaves:
            continue
        for _ in range(directed):
            if time.time() - t0 > budget:
                break
            t, env, v = rnd.choice(atoms)
            over = steer(e, t, env, v, leaves, rnd, p)
            if over is None:
                continue
            d, _e = p.run(over)
            if d:
                return 'seed %d, steered' % seed
    return False if seen else None


def steer(e, t, env, v, leaves, rnd, p):
    """an overriding of one numeric input that decides atom t by a tiny margin."""
    q = t.a[0]
    for _ in range(6):
        k = rnd.choice(leaves)
        v0, clamp = e.leaf[k]
        try:
            e2 = Eval(e.seed)
            e2.over = dict(e.over)
            e2.over[k] = v0 + Fraction(1, 64)
            w = e2.nums(q, env)
            if w == v:
                continue
            slope = (Fraction(w) - Fraction(v)) * 64
            target = rnd.choice(DELTAS)
            nv = v0 + (target - Fraction(v)) / slope
        except (Unk, OverflowError, ValueError, RecursionError, TypeError):
            continue
        if clamp is not None and not clamp[0] <= nv <= clamp[1]:
            continue
        over = dict(e.over)
        over[k] = nv
        return over
    return None


def differ(a, b, budget=20.0):
    return witness(lambda s: Pair(a, b, s), budget)


def traces_differ(mis, ext, budget=25.0):
    return witness(lambda s: TracePair(ext, mis, s), budget)


def raises(effs, ev):
    """'' or the site of an effect that raises under this valuation."""
    for e in effs:
        if e.kind not in ('raise', 'assert'):
            continue

        def go(i, env):
            if i < len(e.qs):
                v, n = e.qs[i]
                for k in range(ev.rangeof(n, env)):
                    x = dict(env)
                    x[v] = k
                    if go(i + 1, x):
                        return True
                return False
            if e.kind == 'assert' and ev.ev(e.args[0], env) is not False:
                return False
            return ev.ev(e.g, env) is True
        try:
            if e.kind == 'raise' and any(x.op == 'sym' and str(x.a[0]).startswith('exc@')
                                         for x in tm.walk(e.g)):
                continue
            if go(0, {}):
                return e.site
        except (Unk, RecursionError):
            continue
    return ''


def matters(terms, seed):
    """conditions are reordered by the normal form, so that one that reads outside a sequence
    need not be evaluated by the program.  It is when the result depends on what is read."""
    seen = []
    for x in (0, 1, 2, -1):
        ev = Eval(seed)
        ev.ext = x
        try:
            v = repr([ev.ev(t, {}) for t in terms])
        except Diverge:
            v = 'diverges'
        except (Unk, RecursionError):
            continue
        if seen and v != seen[0]:
            return True
        seen.append(v)
    return False


def falsify(terms, preds, effs=(), runs=150, budget=25.0):
    """valuations under which a claim about the values of `terms` fails.

    preds: list of functions (ev, values) -> True or a message; returns a list with one
    entry per predicate: a message (refuted), False (never refuted although evaluated) or
    None (nothing could be evaluated)."""
    if os.environ.get('SA_SHAPE'):
        budget = min(budget, 8.0)
    t0 = time.time()
    out = [None] * len(preds)
    rz = None
    for seed in range(runs):
        if time.time() - t0 > budget:
            break
        ev = Eval(seed)
        s = raises(effs, ev)
        if s:
            rz = rz or (seed, s)
            continue
        try:
            vals = [ev.ev(t, {}) for t in terms]
        except Diverge:
            rz = rz or (seed, 'loop does not terminate')
            continue
        except OutOfRange as e:
            rz = rz or (seed, str(e))
            continue
        except CondRange as e:
            if not rz and matters(terms, seed):
                rz = (seed, str(e))
            continue
        except (Unk, RecursionError):
            continue
        for i, p in enumerate(preds):
            if isinstance(out[i], str):
                continue
            try:
                r = p(ev, vals)
            except (Unk, RecursionError):
                continue
            if r is True:
                out[i] = False
            else:
                out[i] = '%s (valuation %d)' % (r or 'fails', seed)
        if all(isinstance(x, str) for x in out):
            break
    return out, rz
