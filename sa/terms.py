"""Hash-consed value-graph terms with algebraic normal forms.

Every expression of the analysed program is lowered to one of these terms.
Two expressions with the same meaning (up to the algebra implemented here:
polynomials, ordered if-then-else DAGs, comprehensions/sums as alpha-canonical
binders, stores/selects) get the *same* node, so equality is pointer equality.
No term is ever executed and no solver is involved: this is value numbering.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(20000)

EMPTY = frozenset()


class T:
    __slots__ = ('op', 'a', 'id', 'h', 'fb', 'fv', 'unk', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_n = [0]

# binders: op -> (first index of bound args, number of bound variables)
# layout: a = (h, <unbound args...>, <bound args...>); bound vars are B(h,i)
BIND = {'tab': 3, 'ftab': 3, 'flat': 3, 'sum': 2, 'any': 2, 'first': 2,
        'maxof': 2, 'minof': 2, 'scat': 3, 'q': 2, 'prod': 2, 'fold': 3,
        'lam': 1}


def mk(op, *a):
    key = (op, a)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T.__new__(T)
    t.op = op
    t.a = a
    _n[0] += 1
    t.id = _n[0]
    h = 0
    fb = 0          # heights of the bound variables that occur free, as bits
    fv = EMPTY
    unk = op == 'unk'
    if op in ('var',):
        fv = frozenset([t])
    elif op == 'B':
        fb = 1 << a[0]
    stack = [a]
    while stack:
        for x in stack.pop():
            if type(x) is T:
                if x.h > h:
                    h = x.h
                fb |= x.fb
                if x.fv:
                    fv = fv | x.fv if fv else x.fv
                if x.unk:
                    unk = True
            elif type(x) is tuple:
                stack.append(x)
    if op in BIND:
        h = max(h, a[0])
        fb &= ~(1 << a[0])
        for x in a[1:BIND[op]]:
            if type(x) is T:
                fb |= x.fb
    t.h = h
    t.fb = fb
    t.fv = fv
    t.unk = unk
    _tab[key] = t
    return t


# ------------------------------------------------------------------ leaves
TRUE = mk('b', True)
FALSE = mk('b', False)
NONE = mk('none')
INF = mk('inf', 1)
NINF = mk('inf', -1)
NAN = mk('nan')
UNDEF = mk('undef')


def num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        if v != v:
            return NAN
        if v == float('inf'):
            return INF
        if v == -float('inf'):
            return NINF
        v = Fraction(repr(v))
    return mk('n', Fraction(v))


ZERO = num(0)
ONE = num(1)


def const(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, str):
        return mk('s', v)
    if isinstance(v, (int, float, Fraction)):
        return num(v)
    if isinstance(v, bytes):
        return mk('bytes', v)
    if v is Ellipsis:
        return mk('ellipsis')
    return unk('const ' + type(v).__name__)


_fresh = [0]


def var(name='v', ty='any', dims=None):
    """A fresh free variable (loop index, loop-carried value)."""
    _fresh[0] += 1
    return mk('var', name, _fresh[0], ty, dims)


def sym(name, ty='any', dims=None):
    return mk('sym', name, ty, dims)


def app(fn, ty, *args):
    """Uninterpreted function application."""
    return mk('app', fn, ty, *args)


UNKNOWNS = [0]       # how many unknown values were made so far


def unk(why, *args):
    UNKNOWNS[0] += 1
    t = mk('unk', why, *args)
    return t


# ------------------------------------------------------------------ types
def typ(t):
    op = t.op
    if op in ('n', 'p', 'inf', 'nan', 'sum', 'prod', 'maxof', 'minof', 'max', 'min',
              'pa'):
        return 'num'
    if op in ('fdiv', 'mod', 'pow', 'round', 'abs'):
        return 'num'
    if op in ('floor', 'len', 'first', 'trunc'):
        return 'int'
    if op in ('b', 'le0', 'eq0', 'eq', 'mem', 'any', 'truthy', 'ind'):
        return 'bool'
    if op in ('s', 'str', 'fmt', 'strcat', 'strmul'):
        return 'str'
    if op == 'none':
        return 'none'
    if op == 'sym':
        return t.a[1]
    if op == 'var':
        return t.a[2]
    if op == 'B':
        return t.a[2]
    if op == 'app':
        return t.a[1]
    if op == 'ite':
        x = typ(t.a[1])
        if x in ('any', 'none', 'undef'):
            y = typ(t.a[2])
            return y if x != 'any' or y not in ('none', 'undef') else x
        if x == 'bool':
            y = typ(t.a[2])
            if y != 'bool':
                return y
        return x
    if op in ('tab', 'flat', 'ftab'):
        return (t.a[1], typ(t.a[-1]) if op != 'flat' else elemty(typ(t.a[-1])))
    if op == 'lit':
        return (t.a[0], typ(t.a[1]) if len(t.a) > 1 else 'any')
    if op == 'cat':
        r = None
        for x in t.a[1:]:
            e = elemty(typ(x))
            if r is None or r == 'any':
                r = e
        return (t.a[0], r)
    if op == 'as':
        return (t.a[0], elemty(typ(t.a[1])))
    if op in ('store', 'delat', 'rem'):
        b = typ(t.a[0])
        if isinstance(b, tuple) and b[1] in ('any', 'undef') and op == 'store':
            return (b[0], typ(t.a[2]))
        return b
    if op == 'scat':
        b = typ(t.a[1])
        if isinstance(b, tuple) and b[1] == 'any':
            return (b[0], typ(t.a[-2]))
        return b
    if op == 'dict0':
        return ('D', 'any')
    if op == 'idx':
        b = typ(t.a[0])
        e = elemty(b)
        return e
    if op in ('sort',):
        b = typ(t.a[0])
        return b
    if op == 'keys':
        return ('L', 'any')
    if op == 'undef':
        return 'undef'
    if op == 'ref':
        return 'ref'
    return 'any'


def elemty(ty):
    if isinstance(ty, tuple) and len(ty) > 1 and ty[0] in 'LADSU':
        return ty[1]
    return 'any'


def kind(t):
    """'L' list, 'A' array, 'D' dict, 'S' set, 'U' tuple or None."""
    ty = typ(t)
    if isinstance(ty, tuple) and ty[0] in ('L', 'A', 'D', 'S', 'U'):
        return ty[0]
    return None


def is_arr(t):
    return kind(t) == 'A'


def isbool(t):
    return typ(t) == 'bool'


def isint(t):
    op = t.op
    if op == 'n':
        return t.a[0].denominator == 1
    if op == 'p':
        for m, c in t.a[0]:
            if c.denominator != 1:
                return False
            for x, e in m:
                if e < 0 or not isint(x):
                    return False
        return True
    if op in ('floor', 'len', 'first', 'trunc'):
        return True
    if op in ('fdiv', 'mod'):
        return isint(t.a[0]) and isint(t.a[1])
    if op in ('sum', 'maxof', 'minof', 'prod'):
        return isint(t.a[-1])
    if op in ('max', 'min'):
        return all(isint(x) for x in t.a)
    if op == 'ite':
        return isint(t.a[1]) and isint(t.a[2])
    return typ(t) == 'int'


def nonneg(t):
    op = t.op
    if op == 'n':
        return t.a[0] >= 0
    if op in ('len', 'first'):
        return True
    if op in ('var', 'B'):
        return t.a[0] == 'k' or (op == 'B' and t.a[3])
    if op == 'sym':
        return t.a[1] == 'int' and not t.a[0].startswith('~')
    if op == 'p':
        for m, c in t.a[0]:
            if c < 0:
                return False
            for x, e in m:
                if not nonneg(x) and not (e % 2 == 0):
                    return False
        return True
    if op == 'idx':
        return typ(t) == 'int'
    if op == 'app':
        return t.a[1] == 'int'
    if op == 'sum':
        return nonneg(t.a[-1])
    if op == 'ite':
        return nonneg(t.a[1]) and nonneg(t.a[2])
    if op == 'max':
        return any(nonneg(x) for x in t.a)
    if op == 'min':
        return all(nonneg(x) for x in t.a)
    if op in ('fdiv',):
        return nonneg(t.a[0]) and nonneg(t.a[1])
    if op == 'mod':
        return nonneg(t.a[1])
    if op == 'abs':
        return True
    if op == 'floor':
        return nonneg(t.a[0])
    if op == 'pow':
        return t.a[1].op == 'n' and t.a[1].a[0].denominator == 2
    return False


def strip_pos(P):
    """divide a polynomial by common factors known to be positive (inverses of
    non-negative atoms)."""
    common = None
    for m in P:
        s = {x: e for x, e in m if e < 0 and nonneg(x)}
        common = s if common is None else {x: max(e, s[x]) for x, e in common.items() if x in s}
        if not common:
            return P
    if not common:
        return P
    out = {}
    for m, c in P.items():
        m2 = []
        for x, e in m:
            e2 = e - common.get(x, 0)
            if e2:
                m2.append((x, e2))
        out[tuple(m2)] = out.get(tuple(m2), 0) + c
    return out


# ------------------------------------------------------------------ lifting
LIFT_CAP = 400
_budget = [0]


def _roots(args):
    best = None
    for x in args:
        if type(x) is T and x.op == 'ite':
            c = x.a[0]
            if best is None or c.id < best.id:
                best = c
    return best


def cof(t, atom, v):
    """Cofactor of an ite-DAG on a root-ordered atom."""
    if t.op == 'ite' and t.a[0] is atom:
        return t.a[1] if v else t.a[2]
    if t is atom:
        return TRUE if v else FALSE
    return t


def leaves_count(t, cap=1000):
    if t.op != 'ite':
        return 1
    return leaves_count(t.a[1], cap) + leaves_count(t.a[2], cap)


def lift(fn, *args):
    """Apply fn to the leaves of the ite-DAG arguments."""
    prod = 1
    for x in args:
        if type(x) is T and x.op == 'ite':
            prod *= leaves_count(x)
    if prod == 1:
        return fn(*args)
    if prod > LIFT_CAP:
        return None
    return _lift(fn, args, {})


def _lift(fn, args, memo):
    key = args
    r = memo.get(key)
    if r is not None:
        return r
    c = _roots(args)
    if c is None:
        r = fn(*args)
    else:
        hi = _lift(fn, tuple(cofd(x, c, True) if type(x) is T else x for x in args), memo)
        lo = _lift(fn, tuple(cofd(x, c, False) if type(x) is T else x for x in args), memo)
        r = ite(c, hi, lo)
    memo[key] = r
    return r


# ------------------------------------------------------------------ ite DAG
ATOMS = ('le0', 'eq0', 'eq', 'mem', 'any', 'truthy', 'ind')
_ite_memo = {}


def isatom_bool(t):
    return typ(t) == 'bool' and t.op not in ('b', 'ite')


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.op == 'undef' and b.op == 'undef':
        return a
    key = (c, a, b)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    r = _ite(c, a, b)
    _ite_memo[key] = r
    return r


def _top(c, a, b):
    best = None
    for x in (c, a, b):
        if x.op == 'ite':
            y = x.a[0]
        elif x.op not in ('b',) and typ(x) == 'bool':
            y = x
        else:
            continue
        if best is None or y.id < best.id:
            best = y
    return best


def cofd(t, atom, v):
    """Cofactor + implied-literal simplification on the whole ite spine."""
    if t.op == 'ite':
        r = _assume(t, atom, v, {})
        return r
    if t is atom:
        return TRUE if v else FALSE
    if typ(t) == 'bool' and t.op != 'b':
        w = implied(atom, v, t)
        if w is not None:
            return TRUE if w else FALSE
    return t


def _assume(t, atom, v, memo):
    if t.op != 'ite':
        if t is atom:
            return TRUE if v else FALSE
        if typ(t) == 'bool' and t.op != 'b':
            w = implied(atom, v, t)
            if w is not None:
                return TRUE if w else FALSE
        return t
    r = memo.get(t)
    if r is not None:
        return r
    c = t.a[0]
    w = v if c is atom else implied(atom, v, c)
    if w is None:
        hi = _assume(t.a[1], atom, v, memo)
        lo = _assume(t.a[2], atom, v, memo)
        if hi is t.a[1] and lo is t.a[2]:
            r = t
        else:
            r = ite(c, hi, lo)
    else:
        r = _assume(t.a[1] if w else t.a[2], atom, v, memo)
    memo[t] = r
    return r


def _ite(c, a, b):
    if c.op not in ('ite', 'b') and typ(c) != 'bool':
        c = truth(c)
        return ite(c, a, b)
    atom = _top(c, a, b)
    c1, c0 = cofd(c, atom, True), cofd(c, atom, False)
    a1, a0 = cofd(a, atom, True), cofd(a, atom, False)
    b1, b0 = cofd(b, atom, True), cofd(b, atom, False)
    hi = ite(c1, a1, b1)
    lo = ite(c0, a0, b0)
    return _node(atom, hi, lo)


_nonemem = {}


def _none(atom):
    """S when atom is 'some entry of S holds' for all entries of S."""
    r = _nonemem.get(atom, 0)
    if r == 0:
        r = None
        v, n, body = opn(atom, fresh=True)
        if body.op == 'idx' and body.a[1] is v and v not in body.a[0].fv \
                and length(body.a[0]) is n:
            r = body.a[0]
        _nonemem[atom] = r
    return r


def _without(t, s):
    """t where no entry of s holds."""
    return mapterm(t, lambda x: FALSE if x.op == 'idx' and x.a[0] is s else x)


def _node(atom, hi, lo):
    if hi is lo:
        return hi
    if hi is TRUE and lo is FALSE:
        return atom
    if atom.op == 'any' and (hi.op not in ('b', 'n') or lo.op not in ('b', 'n')):
        s = _none(atom)
        if s is not None and any(x is s for x in walk(hi)):
            lo = _without(lo, s)
            if _without(hi, s) is lo:
                return hi
    # 1/0 vs True/False are kept distinct (typing), see asnum
    if atom.op == 'le0' and hi.op != 'ite' and lo.op != 'ite' \
            and isnumt(hi) and isnumt(lo):
        p = atom.a[0]
        d = sub(lo, hi)      # lo - hi
        r = ratio(d, p)
        if r is not None:
            if r > 0:
                return tmax(hi, lo)
            else:
                return tmin(hi, lo)
    if atom.op == 'eq0' and hi.op != 'ite' and lo.op != 'ite':
        # ite(x == y, x, y) -> y
        if isnumt(hi) and isnumt(lo):
            d = sub(lo, hi)
            if ratio(d, atom.a[0]) is not None:
                return lo
            # ite(x == 0, f(0), f(x)) -> f(x)
            x = atom.a[0]
            if x.op in ('idx', 'sym', 'app', 'var') and lo.op not in ('n', 'idx', 'sym') and \
                    x in set(walk(lo)) and subst(lo, {x: ZERO}) is hi:
                return lo
    # reorder if needed (children roots must have larger ids)
    if (hi.op == 'ite' and hi.a[0].id < atom.id) or \
            (lo.op == 'ite' and lo.a[0].id < atom.id) or \
            (isatom_bool(hi) and hi.id < atom.id) or (isatom_bool(lo) and lo.id < atom.id):
        t2 = _top(atom, hi, lo)
        if t2 is not atom:
            return ite(t2,
                       ite(cofd(atom, t2, True), cofd(hi, t2, True), cofd(lo, t2, True)),
                       ite(cofd(atom, t2, False), cofd(hi, t2, False), cofd(lo, t2, False)))
    return mk('ite', atom, hi, lo)


def isnumt(t):
    return t.op in ('n', 'p', 'sum', 'max', 'min', 'maxof', 'minof', 'inf', 'prod') \
        or typ(t) in ('num', 'int')


def ratio(p, q):
    """c such that p == c*q (c constant, nonzero) or None."""
    P, Q = poly(p), poly(q)
    if not P or not Q or len(P) != len(Q):
        return None
    r = None
    for m, c in P.items():
        d = Q.get(m)
        if d is None:
            return None
        if r is None:
            r = c / d
        elif c != r * d:
            return None
    return r


def implied(a, v, b):
    """Truth value of atom b given atom a == v, or None."""
    if a is b:
        return v
    ao, bo = a.op, b.op
    if ao in ('le0', 'eq0') and bo in ('le0', 'eq0'):
        return _imp_num(a, v, b)
    if ao == 'eq' and bo == 'eq' and v:
        x, y = a.a
        z, w = b.a
        for p, q in ((x, y), (y, x)):
            for r, s in ((z, w), (w, z)):
                if p is r and isconst(q) and isconst(s) and q is not s:
                    return False
    return None


def _diffconst(p, q, sgn):
    """constant c with q == sgn*p + c, else None."""
    P, Q = poly(p), poly(q)
    c = None
    cnt = 0
    for m, x in Q.items():
        if m == ():
            continue
        cnt += 1
        y = P.get(m)
        if y is None or sgn * y != x:
            return None
    if cnt != len([m for m in P if m != ()]):
        return None
    return Q.get((), Fraction(0)) - sgn * P.get((), Fraction(0))


def _imp_num(a, v, b):
    p, q = a.a[0], b.a[0]
    integral = isint(p) and isint(q)
    for sgn in (1, -1):
        c = _diffconst(p, q, sgn)
        if c is None:
            continue
        # q = sgn*p + c ; range of p from literal
        lo, hi, los, his = None, None, False, False
        if a.op == 'le0':
            if v:
                hi, his = Fraction(0), False
            else:
                lo, los = Fraction(0), True
                if integral:
                    lo, los = Fraction(1), False
        else:
            if v:
                lo = hi = Fraction(0)
            else:
                if b.op == 'eq0' and c == 0:
                    return False
                return None
        if sgn == 1:
            qlo = None if lo is None else lo + c
            qhi = None if hi is None else hi + c
            qls, qhs = los, his
        else:
            qlo = None if hi is None else c - hi
            qhi = None if lo is None else c - lo
            qls, qhs = his, los
        if b.op == 'le0':
            if qhi is not None and qhi <= 0:
                return True
            if qlo is not None and (qlo > 0 or (qlo == 0 and qls)):
                return False
        else:
            if qlo is not None and qhi is not None and qlo == qhi == 0:
                return True
            if qlo is not None and (qlo > 0 or (qlo == 0 and qls)):
                return False
            if qhi is not None and (qhi < 0 or (qhi == 0 and qhs)):
                return False
    return None


def isconst(t):
    return t.op in ('n', 's', 'b', 'none', 'inf', 'nan')


def nt(c):
    return ite(c, FALSE, TRUE)


def conj(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def disj(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r


def truth(t):
    if t.op == 'ite':
        r = lift(truth, t)
        return r if r is not None else mk('truthy', t)
    ty = typ(t)
    if ty == 'bool':
        return t
    if t.op == 'none':
        return FALSE
    if t.op == 's':
        return TRUE if t.a[0] else FALSE
    if ty in ('num', 'int'):
        if t.op == 'inf':
            return TRUE
        return nt(eq0(t))
    if isinstance(ty, tuple) and ty[0] in 'LDSU':
        return nt(eq0(length(t)))
    if isinstance(ty, tuple) and ty[0] == 'obj':
        return TRUE
    return mk('truthy', t)


# ------------------------------------------------------------------ numbers
def asnum(t):
    """bool -> 0/1."""
    if t.op == 'b':
        return ONE if t.a[0] else ZERO
    if t.op == 'ite':
        if typ(t) == 'bool' or typ(t.a[1]) == 'bool' or typ(t.a[2]) == 'bool':
            return ite(t.a[0], asnum(t.a[1]), asnum(t.a[2]))
        return t
    if typ(t) == 'bool':
        return ite(t, ONE, ZERO)
    return t


def poly(t):
    """dict monomial -> Fraction. monomial: tuple((atom, exp),...) by id."""
    if t.op == 'n':
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == 'p':
        return dict(t.a[0])
    return {((t, 1),): Fraction(1)}


def frompoly(d):
    items = [(m, c) for m, c in d.items() if c]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return mk('n', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: tuple((x.id, e) for x, e in mc[0]))
    return mk('p', tuple(items))


def _bcast(fn, a, b):
    """elementwise numpy operation on (possibly nested) arrays."""
    ra, rb = rank(a), rank(b)
    if ra == 0 and rb == 0:
        return None
    k = var('k', 'int')
    if ra >= rb and ra > 0:
        n = length(a)
        if ra == rb:
            body = fn(idx(a, k), idx(b, k))
        else:
            body = fn(idx(a, k), b)
        return tab('A', n, k, body)
    n = length(b)
    return tab('A', n, k, fn(a, idx(b, k)))


def rank(t):
    ty = typ(t)
    r = 0
    while isinstance(ty, tuple) and ty[0] == 'A':
        r += 1
        ty = ty[1]
    if isinstance(ty, tuple) and ty[0] in 'LU' and r == 0:
        return 0
    return r


def arith(fn):
    def g(*args):
        args = tuple(asnum(x) for x in args)
        if any(x.op == 'ite' for x in args):
            r = lift(lambda *xs: g(*xs), *args)
            if r is not None:
                return r
        if any(is_arr(x) for x in args):
            if len(args) == 1:
                k = var('k', 'int')
                return tab('A', length(args[0]), k, g(idx(args[0], k)))
            r = _bcast(g, args[0], args[1])
            if r is not None:
                return r
        return fn(*args)
    g.__name__ = fn.__name__
    return g


@arith
def add(a, b):
    if a.op == 'inf' or b.op == 'inf':
        if a.op == 'inf' and b.op == 'inf' and a is not b:
            return NAN
        return a if a.op == 'inf' else b
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    d = poly(a)
    for m, c in poly(b).items():
        d[m] = d.get(m, 0) + c
    return frompoly(d)


@arith
def neg(a):
    if a.op == 'inf':
        return mk('inf', -a.a[0])
    return frompoly({m: -c for m, c in poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    d = dict(m1)
    for x, e in m2:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda xe: xe[0].id))


@arith
def mul(a, b):
    if a.op == 'inf' or b.op == 'inf':
        x, y = (a, b) if a.op == 'inf' else (b, a)
        if y.op == 'n':
            if y.a[0] == 0:
                return NAN
            return x if y.a[0] > 0 else neg(x)
        if y.op == 'inf':
            return mk('inf', x.a[0] * y.a[0])
        return mk('p', (((((x, 1),) if x.id < y.id else ((y, 1), (x, 1)))
                         if False else tuple(sorted([(x, 1), (y, 1)], key=lambda z: z[0].id)),
                         Fraction(1)),))
    if a is ONE:
        return b
    if b is ONE:
        return a
    d = {}
    for m1, c1 in poly(a).items():
        for m2, c2 in poly(b).items():
            m = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return frompoly(d)


@arith
def inv(a):
    if a.op == 'n':
        if a.a[0] == 0:
            return unk('1/0')
        return mk('n', 1 / a.a[0])
    if a.op == 'inf':
        return ZERO
    P = poly(a)
    if len(P) == 1:
        (m, c), = P.items()
        return frompoly({tuple((x, -e) for x, e in m): 1 / c})
    lead = sorted(P.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))[-1][1]
    q = frompoly({m: c / lead for m, c in P.items()})
    return frompoly({((mk('pa', q), -1),): 1 / lead})


def div(a, b):
    return mul(a, inv(b))


@arith
def power(a, b):
    if b.op == 'n' and b.a[0].denominator == 1:
        e = b.a[0].numerator
        if e == 0:
            return ONE
        if 0 < e <= 6:
            r = a
            for _ in range(e - 1):
                r = mul(r, a)
            return r
        if e < 0:
            return inv(power(a, num(-e)))
    if b.op == 'n' and a.op == 'n' and a.a[0] in (0, 1):
        return a
    return mk('pow', a, b)


@arith
def floor(a):
    if a.op == 'inf':
        return a
    if isint(a):
        return a
    P = poly(a)
    ip, rest = {}, {}
    for m, c in P.items():
        x = frompoly({m: c})
        if m == ():
            import math
            f = math.floor(c)
            if f:
                ip[m] = Fraction(f)
            if c - f:
                rest[m] = c - f
        elif isint(x):
            ip[m] = c
        else:
            rest[m] = c
    if not rest:
        return frompoly(ip)
    if set(rest) == {()}:
        return frompoly(ip)
    return add(frompoly(ip), mk('floor', frompoly(rest)))


def ceil(a):
    return neg(floor(neg(a)))


@arith
def trunc(a):
    if isint(a):
        return a
    if a.op == 'n':
        return num(int(a.a[0]))
    # int() of a float: truncation; equal to floor on non-negative values
    if nonneg(a):
        return floor(a)
    return mk('trunc', a)


@arith
def fdiv(a, b):
    if a.op == 'n' and b.op == 'n' and b.a[0]:
        return num(a.a[0] // b.a[0])
    if b is ONE and isint(a):
        return a
    if not (isint(a) and isint(b)):
        return floor(div(a, b))
    # split multiples of b:  (b*q + r)//b = q + r//b
    q, r = _split_multiple(a, b)
    if q is not None:
        if r is ZERO:
            return q
        if _below(r, b):
            return q
        if q is not ZERO:
            return add(q, mk('fdiv', r, b))
    return mk('fdiv', a, b)


def _split_multiple(a, b):
    P = poly(a)
    if b.op == 'n':
        bv = b.a[0]
        q, r = {}, {}
        for m, c in P.items():
            if m != () and c % bv == 0:
                q[m] = c / bv
            elif m == ():
                q[m] = c // bv
                r[m] = c % bv
            else:
                r[m] = c
        return frompoly(q), frompoly(r)
    Pb = poly(b)
    if len(Pb) != 1:
        return None, None
    (mb, cb), = Pb.items()
    q, r = {}, {}
    for m, c in P.items():
        d = dict(m)
        ok = c % cb == 0
        for x, e in mb:
            d[x] = d.get(x, 0) - e
            if d[x] < 0:
                ok = False
        if ok:
            mm = tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda z: z[0].id))
            q[mm] = c / cb
        else:
            r[m] = c
    return frompoly(q), frompoly(r)


UPPER = {}   # loop variable -> exclusive upper bound term


def _below(r, b):
    """0 <= r < b known from loop ranges."""
    if r.op in ('var',) and UPPER.get(r) is b:
        return True
    if r.op == 'mod' and r.a[1] is b:
        return True
    if r.op == 'n' and b.op == 'n':
        return 0 <= r.a[0] < b.a[0]
    return False


@arith
def mod(a, b):
    if a.op == 'n' and b.op == 'n' and b.a[0]:
        return num(a.a[0] % b.a[0])
    if isint(a) and isint(b):
        q, r = _split_multiple(a, b)
        if r is not None:
            if r is ZERO:
                return ZERO
            if _below(r, b):
                return r
            a = r
    return mk('mod', a, b)


@arith
def tabs(a):
    if a.op == 'n':
        return num(abs(a.a[0]))
    if nonneg(a):
        return a
    P = poly(a)
    lead = sorted(P.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))[-1][1]
    if lead < 0:
        a = neg(a)
    if len(P) == 1 and abs(lead) != 1 and () not in P:
        return mul(num(abs(lead)), tabs(mul(num(1/Fraction(abs(lead))), a)))
    return mk('abs', a)


@arith
def tround(a, nd):
    return mk('round', a, nd)


def _mm(opn, args):
    flat = []
    for x in args:
        if x.op == opn:
            flat.extend(x.a)
        else:
            flat.append(x)
    # constants / inf
    good = []
    cst = None
    ismax = opn == 'max'
    for x in flat:
        if x.op == 'inf':
            if (x.a[0] > 0) == ismax:
                return x
            continue
        if x.op == 'n':
            if cst is None:
                cst = x.a[0]
            else:
                cst = max(cst, x.a[0]) if ismax else min(cst, x.a[0])
            continue
        if x not in good:
            good.append(x)
    if cst is not None:
        c = num(cst)
        if not (cst <= 0 and ismax and any(nonneg(g) for g in good)):
            if not (cst >= 0 and not ismax and False):
                good.append(c)
    # constant differences
    out = []
    for x in good:
        drop = False
        for y in good:
            if y is x:
                continue
            d = sub(x, y)
            if d.op == 'n':
                if (ismax and d.a[0] < 0) or (not ismax and d.a[0] > 0):
                    drop = True
        if not drop:
            out.append(x)
    if not out:
        return mk('inf', -1 if ismax else 1)
    if len(out) == 1:
        return out[0]
    return mk(opn, *sorted(out))


def tmax(*args):
    args = tuple(asnum(x) for x in args)
    r = lift(lambda *xs: _mm('max', xs), *args)
    return r if r is not None else _mm('max', args)


def tmin(*args):
    args = tuple(asnum(x) for x in args)
    r = lift(lambda *xs: _mm('min', xs), *args)
    return r if r is not None else _mm('min', args)


# ------------------------------------------------------------------ compare
POS = set()      # integer symbols known to be at least 1 (problem dimensions)


def lowb(P):
    """a lower bound of a polynomial, or None."""
    r = Fraction(0)
    for m, c in P.items():
        if m == ():
            r += c
        elif c > 0 and all(x in POS and e > 0 for x, e in m):
            r += c
        elif c > 0 and nonneg(frompoly({m: Fraction(1)})):
            pass
        else:
            return None
    return r


def le0(p):
    p = asnum(p)
    if p.op == 'ite':
        r = lift(le0, p)
        if r is not None:
            return r
    if p.op == 'n':
        return TRUE if p.a[0] <= 0 else FALSE
    if p.op == 'inf':
        return TRUE if p.a[0] < 0 else FALSE
    if p.op in ('unk', 'nan'):
        return mk('le0', p)
    P = poly(p)
    P2 = strip_pos(P)
    if P2 is not P:
        return le0(frompoly(P2))
    if len(P) == 1:
        (m, c), = P.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sum' and c > 0 and \
                nonneg(m[0][0].a[-1]):
            v, n, body = opn(m[0][0])
            return nt(tany(n, v, lt(ZERO, body)))
    # max/min occurrences
    for m, c in P.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('max', 'min'):
            mm = m[0][0]
            rest = frompoly({k: v for k, v in P.items() if k != m})
            parts = [le0(add(rest, mul(num(c), x))) for x in mm.a]
            conjv = (c > 0) == (mm.op == 'max')
            return conj(*parts) if conjv else disj(*parts)
    # maxof/minof:  maxof(n,f) <= x  <=>  all f <= x
    for m, c in P.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('maxof', 'minof'):
            mm = m[0][0]
            rest = frompoly({k: v for k, v in P.items() if k != m})
            v, n, body = opn(mm)
            cond = le0(add(rest, mul(num(c), body)))
            if (c > 0) == (mm.op == 'maxof'):
                return nt(tany(n, v, nt(cond)))
            return tany(n, v, cond)
    items = sorted(P.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))
    # signs
    if nonneg(neg(p)):
        return TRUE
    if POS:
        lb = lowb(P)
        if lb is not None and lb > 0:
            return FALSE
        lb = lowb({m: -c for m, c in P.items()})
        if lb is not None and lb >= 0:
            return TRUE
    if all(nonneg(frompoly({m: c})) for m, c in items) and P.get((), 0) > 0:
        return FALSE
    if isint(p) or all(isint(frompoly({m: Fraction(1)})) for m, c in items if m != ()):
        from math import gcd, floor as fl
        den = 1
        for m, c in items:
            if m != ():
                den = den * c.denominator // gcd(den, c.denominator)
        co = {m: c * den for m, c in items if m != ()}
        g = 0
        for c in co.values():
            g = gcd(g, abs(c.numerator))
        k0 = P.get((), Fraction(0)) * den
        L = {m: c / g for m, c in co.items()}
        bound = fl(-k0 / g)          # L <= bound
        lead = sorted(L.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))[-1][1]
        if lead < 0:
            # -L >= -bound  <=> not(-L <= -bound-1)
            L2 = {m: -c for m, c in L.items()}
            q = dict(L2)
            b2 = -bound - 1
            if b2:
                q[()] = Fraction(-b2)
            qq = frompoly(q)
            if nonneg(neg(qq)):
                return FALSE
            return nt(mk('le0', qq))
        q = dict(L)
        if bound:
            q[()] = Fraction(-bound)
        qq = frompoly(q)
        if all(nonneg(frompoly({m: c})) for m, c in q.items()) and q.get((), 0) > 0:
            return FALSE
        return mk('le0', qq)
    lead = [c for m, c in items if m != ()][-1]
    s = abs(lead)
    return mk('le0', frompoly({m: c / s for m, c in items}))


def _cmp_inf(a, b):
    """a <= b with infinities."""
    if a.op == 'inf' and b.op == 'inf':
        return TRUE if a.a[0] <= b.a[0] else FALSE
    if a.op == 'inf':
        return TRUE if a.a[0] < 0 else eq(b, a)
    return TRUE if b.a[0] > 0 else eq(a, b)


def le(a, b):
    a, b = asnum(a), asnum(b)
    if a.op == 'ite' or b.op == 'ite':
        r = lift(le, a, b)
        if r is not None:
            return r
    if is_arr(a) or is_arr(b):
        return _bcast(le, a, b)
    if a.op == 'inf' or b.op == 'inf':
        return _cmp_inf(a, b)
    return le0(sub(a, b))


def lt(a, b):
    a, b = asnum(a), asnum(b)
    if a.op == 'ite' or b.op == 'ite':
        r = lift(lt, a, b)
        if r is not None:
            return r
    if is_arr(a) or is_arr(b):
        return _bcast(lt, a, b)
    return nt(le(b, a))


def eq0(p):
    p = asnum(p)
    if p.op == 'ite':
        r = lift(eq0, p)
        if r is not None:
            return r
    if p.op == 'n':
        return TRUE if p.a[0] == 0 else FALSE
    if p.op == 'inf':
        return FALSE
    P = poly(p)
    P2 = strip_pos(P)
    if P2 is not P:
        return eq0(frompoly(P2))
    if len(P) == 1:
        (m, c), = P.items()
        if len(m) == 1 and m[0][1] == 1:
            x = m[0][0]
            if x.op == 'sum' and nonneg(x.a[-1]):
                v, n, body = opn(x)
                return nt(tany(n, v, lt(ZERO, body)))
            if x.op == 'max' and ZERO in x.a:
                return conj(*[le0(y) for y in x.a if y is not ZERO])
            if x.op == 'maxof' and all(y is NINF or nonneg(y) for _, y in leafs(
                    x.a[-1], TRUE)):
                v, n, body = opn(x)
                return conj(tany(n, v, eq0(body)), nt(tany(n, v, lt(ZERO, body))))
        elif len(m) > 1 and all(e > 0 for _, e in m):
            return disj(*[eq0(x) for x, _ in m])
    items = sorted(P.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))
    if P.get((), 0) > 0 and nonneg(p):
        return FALSE
    if P.get((), 0) < 0 and nonneg(neg(p)):
        return FALSE
    if POS:
        lb = lowb(P)
        if lb is not None and lb > 0:
            return FALSE
        lb = lowb({m: -c for m, c in P.items()})
        if lb is not None and lb > 0:
            return FALSE
    if len(items) == 1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1:
        x = items[0][0][0][0]
        if x.op == 'len':
            return mk('eq0', x)
    lead = [c for m, c in items if m != ()][-1]
    q = {m: c / lead for m, c in items}
    if isint(frompoly({m: c for m, c in q.items() if m != ()})) and \
            q.get((), Fraction(0)).denominator != 1:
        return FALSE
    return mk('eq0', frompoly(q))


def eq(a, b):
    if a is b:
        if a.op == 'nan':
            return FALSE
        return TRUE
    if a.op == 'ite' or b.op == 'ite':
        r = lift(eq, a, b)
        if r is not None:
            return r
    if is_arr(a) or is_arr(b):
        if is_arr(a) and is_arr(b) or rank(a) + rank(b) > 0:
            if b.op not in ('none',) and a.op not in ('none',):
                return _bcast(eq, a, b)
    ta, tb = typ(a), typ(b)
    if isconst(a) and isconst(b):
        if a.op in ('n', 'b') and b.op in ('n', 'b'):
            return TRUE if asnum(a) is asnum(b) else FALSE
        return FALSE
    if a.op == 'none' or b.op == 'none':
        x, tx = (b, tb) if a.op == 'none' else (a, ta)
        if tx != 'any' and tx != 'undef':
            return FALSE
        return mk('eq', *sorted((a, b)))
    if ta == 'bool' and tb == 'bool':
        return ite(a, b, nt(b))
    if (ta == 'bool' and b.op == 'n') or (tb == 'bool' and a.op == 'n'):
        x, n_ = (a, b) if ta == 'bool' else (b, a)
        if n_ is ONE:
            return x
        if n_ is ZERO:
            return nt(x)
        return FALSE
    numlike = ('num', 'int', 'bool')
    if a.op == 'inf' or b.op == 'inf':
        x = b if a.op == 'inf' else a
        if x.op in ('n',) or isint(x):
            return FALSE
        return mk('eq', *sorted((a, b)))
    if (ta in numlike or ta == 'any') and (tb in numlike or tb == 'any') and \
            (ta in numlike or tb in numlike) and a.op != 's' and b.op != 's':
        return eq0(sub(a, b))
    if ta in numlike and tb == 'str' or tb in numlike and ta == 'str':
        return FALSE
    for x, y in ((a, b), (b, a)):
        if y.op == 'lit' and len(y.a) == 1 and kind(x) == y.a[0]:
            return eq0(length(x))
    if a.op == 'lit' and b.op == 'lit' and a.a[0] == b.a[0]:
        if len(a.a) != len(b.a):
            return FALSE
        return conj(*[eq(x, y) for x, y in zip(a.a[1:], b.a[1:])])
    if a.op == 'cls' and b.op == 'cls':
        return FALSE
    return mk('eq', *sorted((a, b)))


# ------------------------------------------------------------------ binders
def B(h, i, ty, nn):
    return mk('B', h, i, ty, nn)


_open_memo = {}
_openfold_memo = {}


def _bvars(t):
    """types of the bound vars of binder t."""
    op = t.op
    if op == 'fold':
        return t.a[2]
    if op == 'lam':
        return t.a[0 + 1] if False else t.a[1]
    return (('k', 'int'),)


def close(op, unbound, vs, bound):
    """Build binder: unbound args tuple, vs list of free vars, bound terms."""
    free = 0
    for x in bound:
        free |= x.fb
    h = 1 + max([x.h for x in bound] + [0])
    for _ in range(30):
        while free >> h & 1:      # a bound variable of an enclosing binder being built
            h += 1
        m = {v: B(h, i, v.a[2] if i else 'int', not i) for i, v in enumerate(vs)}
        nb = tuple(subst(x, m) for x in bound)
        h2 = max([x.h for x in nb] + [0])
        if h2 < h:
            return mk(op, h, *unbound, *nb)
        # substitution changed heights: redo with a larger height
        h = h2 + 1
    raise ValueError('binder height')


def _split_args(t):
    op = t.op
    a = t.a
    nb = BIND[op]
    return a[0], a[1:nb], a[nb:]


def opn(t, fresh=False):
    """Open a one-variable binder: (var, n, *bound)  (n = last unbound arg)."""
    r = None if fresh else _open_memo.get(t)
    if r is None:
        h, ub, bd = _split_args(t)
        n = ub[-1] if t.op != 'scat' else ub[1]
        v = var('k', 'int')
        UPPER[v] = n
        b = B(h, 0, 'int', True)
        r = (v, ub, tuple(subst(x, {b: v}) for x in bd))
        if not fresh:
            _open_memo[t] = r
    v, ub, bd = r
    n = ub[-1] if t.op != 'scat' else ub[1]
    return (v, n) + bd


def openfold(t):
    h, ub, bd = _split_args(t)
    n, tys = ub
    vs = [var('k', 'int')] + [var('phi', ty) for ty in tys]
    UPPER[vs[0]] = n
    m = {B(h, 0, 'int', True): vs[0]}
    for i, ty in enumerate(tys):
        m[B(h, i + 1, ty, False)] = vs[i + 1]
    return vs, n, tuple(subst(x, m) for x in bd)


def subst(t, m):
    if not m:
        return t
    dom = frozenset(m)
    rng = EMPTY
    for v in m.values():
        rng = rng | v.fv
    hasB = 0
    for x in m:
        if x.op == 'B':
            hasB |= 1 << x.a[0]
        elif x.op != 'var':
            hasB = -1
            break
    return _subst(t, m, dom, rng, hasB, {})


def _subst(t, m, dom, rng, hasB, memo):
    r = m.get(t)
    if r is not None:
        return r
    if hasB >= 0 and not (t.fb & hasB) and not (t.fv & dom):
        return t
    if not t.a:
        return t
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op in BIND:
        r = _subst_binder(t, m, dom, rng, hasB, memo)
    else:
        args, ch = _sub_args(t.a, m, dom, rng, hasB, memo)
        r = rebuild(op, args) if ch else t
    memo[t] = r
    return r


def _sub_args(a, m, dom, rng, hasB, memo):
    out = []
    ch = False
    for x in a:
        if type(x) is T:
            y = _subst(x, m, dom, rng, hasB, memo)
            if y is not x:
                ch = True
            out.append(y)
        elif type(x) is tuple and x:
            y, c = _sub_args(x, m, dom, rng, hasB, memo)
            ch = ch or c
            out.append(tuple(y) if c else x)
        else:
            out.append(x)
    return out, ch


def _subst_binder(t, m, dom, rng, hasB, memo):
    op = t.op
    h, ub, bd = _split_args(t)
    nub, c1 = _sub_args(ub, m, dom, rng, hasB, memo)
    if op == 'fold':
        r = _openfold_memo.get(t)
        if r is None or any(v in dom or v in rng for v in r[0]):
            fr = r is not None
            r = openfold(t)
            if not fr:
                _openfold_memo[t] = r
        vs, n, obd = r
        nbd = [_subst(x, m, dom, rng, hasB, memo) for x in obd]
        if not c1 and all(x is y for x, y in zip(nbd, obd)):
            return t
        return mk_fold(nub[0], nub[1], vs, nbd)
    if op == 'lam':
        return t if not c1 else t
    r = _open_memo.get(t)
    if r is None or r[0] in dom or r[0] in rng:
        o = opn(t, fresh=r is not None)
        v, obd = o[0], o[2:]
    else:
        v, obd = r[0], r[2]
    nbd = [_subst(x, m, dom, rng, hasB, memo) for x in obd]
    if not c1 and all(x is y for x, y in zip(nbd, obd)):
        return t
    return rebuild_binder(op, nub, v, nbd)


def rebuild_binder(op, ub, v, bd):
    if op == 'tab':
        return tab(ub[0], ub[1], v, bd[0])
    if op == 'ftab':
        return ftab(ub[0], ub[1], v, bd[0], bd[1])
    if op == 'flat':
        return flat(ub[0], ub[1], v, bd[0])
    if op == 'sum':
        return tsum(ub[0], v, bd[0])
    if op == 'any':
        return tany(ub[0], v, bd[0])
    if op == 'first':
        return first(ub[0], v, bd[0])
    if op == 'maxof':
        return mmof('maxof', ub[0], v, bd[0])
    if op == 'minof':
        return mmof('minof', ub[0], v, bd[0])
    if op == 'scat':
        return scat(ub[0], ub[1], v, bd[0], bd[1], bd[2])
    if op == 'q':
        return quant(ub[0], v, bd[0])
    if op == 'prod':
        return close('prod', tuple(ub), [v], bd)
    raise ValueError(op)


def rebuild(op, a):
    f = REB.get(op)
    if f is not None:
        return f(*a)
    return mk(op, *a)


def mk_sumlike(op, n, v, body):
    return close(op, (n,), [v], (body,))


def _indep_root(body, v):
    """an ite atom anywhere on the spine not depending on v."""
    if body.op != 'ite':
        if isatom_bool(body) and v not in body.fv:
            return body
        return None
    if v not in body.a[0].fv:
        return body.a[0]
    return _indep_root(body.a[1], v) or _indep_root(body.a[2], v)


def tab(kd, n, v, body):
    if n.op == 'ite':
        r = lift(lambda x: tab(kd, x, v, body), n)
        if r is not None:
            return r
    n = _clampn(n)
    if n.op == 'n':
        k = n.a[0]
        if k <= 0:
            return mk('lit', kd)
        if k <= 12 and k.denominator == 1:
            return mk('lit', kd, *[subst(body, {v: num(i)}) for i in range(int(k))])
    if body.op == 'ite':
        c = _indep_root(body, v)
        if c is not None:
            return ite(c, tab(kd, n, v, cofd(body, c, True)),
                       tab(kd, n, v, cofd(body, c, False)))
    if body.op == 'idx' and body.a[1] is v and v not in body.a[0].fv and \
            length(body.a[0]) is n:
        return askind(kd, body.a[0])
    return close('tab', (kd, n), [v], (body,))


def _clampn(n):
    """max(x,0) as a trip count -> x."""
    if n.op == 'max' and ZERO in n.a and len(n.a) == 2:
        return n.a[0] if n.a[1] is ZERO else n.a[1]
    return n


def askind(kd, x):
    if kind(x) == kd:
        return x
    op = x.op
    if op == 'ite':
        r = lift(lambda y: askind(kd, y), x)
        if r is not None:
            return r
    if op == 'as':
        return askind(kd, x.a[1])
    if op == 'lit':
        return mk('lit', kd, *x.a[1:])
    if op in ('tab', 'ftab', 'flat'):
        return mk(op, x.a[0], kd, *x.a[2:])
    if op == 'cat':
        return mk('cat', kd, *[askind(kd, y) for y in x.a[1:]])
    return mk('as', kd, x)


def ftab(kd, n, v, cond, body):
    if n.op == 'ite':
        r = lift(lambda x: ftab(kd, x, v, cond, body), n)
        if r is not None:
            return r
    n = _clampn(n)
    if cond is TRUE:
        return tab(kd, n, v, body)
    if cond is FALSE or n is ZERO:
        return mk('lit', kd)
    c = _indep_root(cond, v)
    if c is not None:
        return ite(c, ftab(kd, n, v, cofd(cond, c, True), body),
                   ftab(kd, n, v, cofd(cond, c, False), body))
    if body.op == 'ite':
        # conditions inside the body that the filter decides
        body = restrict(body, cond)
        c = _indep_root(body, v)
        if c is not None:
            return ite(c, ftab(kd, n, v, cofd(cond, c, True), cofd(body, c, True)),
                       ftab(kd, n, v, cofd(cond, c, False), cofd(body, c, False)))
    if n.op == 'n' and n.a[0] <= 8 and n.a[0].denominator == 1:
        parts = []
        ok = True
        for i in range(int(n.a[0])):
            cc = subst(cond, {v: num(i)})
            if cc is TRUE:
                parts.append(mk('lit', kd, subst(body, {v: num(i)})))
            elif cc is not FALSE:
                ok = False
        if ok:
            return cat(kd, *parts)
    return close('ftab', (kd, n), [v], (cond, body))


def flat(kd, n, v, body):
    """concatenation of the sequences body(k), k<n."""
    if n.op == 'ite':
        r = lift(lambda x: flat(kd, x, v, body), n)
        if r is not None:
            return r
    n = _clampn(n)
    if n is ZERO:
        return mk('lit', kd)
    if body.op == 'lit':
        if len(body.a) == 1:
            return mk('lit', kd)
        if len(body.a) == 2:
            return tab(kd, n, v, body.a[1])
    c = _indep_root(body, v)
    if c is not None:
        return ite(c, flat(kd, n, v, cofd(body, c, True)),
                   flat(kd, n, v, cofd(body, c, False)))
    if body.op == 'ite':
        # every leaf is [] or [e]: filtered comprehension
        lv = list(leafs(body, TRUE))
        if all(x.op == 'lit' and len(x.a) <= 2 for _, x in lv):
            cond = FALSE
            val = None
            for g, x in lv:
                if len(x.a) == 2:
                    cond = disj(cond, g)
                    val = x.a[1] if val is None else ite(g, x.a[1], val)
            if val is not None:
                return ftab(kd, n, v, cond, val)
            return mk('lit', kd)
    if n.op == 'n' and n.a[0] <= 8:
        return cat(kd, *[subst(body, {v: num(i)}) for i in range(int(n.a[0]))])
    return close('flat', (kd, n), [v], (body,))


def leafs(t, guard):
    if t.op != 'ite':
        yield guard, t
        return
    yield from leafs(t.a[1], conj(guard, t.a[0]))
    yield from leafs(t.a[2], conj(guard, nt(t.a[0])))


def restrict(t, cond):
    """simplify t's spine assuming cond holds (generalised cofactor)."""
    if cond.op == 'b' or t.op not in ('ite',) and not isatom_bool(t):
        return t
    # literals forced by cond
    for a, v in forced(cond):
        t = cofd(t, a, v)
    if t.op == 'ite':
        # drop branches incompatible with cond
        c = t.a[0]
        h = conj(cond, c)
        l = conj(cond, nt(c))
        if h is FALSE:
            return restrict(t.a[2], cond)
        if l is FALSE:
            return restrict(t.a[1], cond)
        hi, lo = restrict(t.a[1], h), restrict(t.a[2], l)
        if hi is not t.a[1] or lo is not t.a[2]:
            return ite(c, hi, lo)
    elif isatom_bool(t):
        if conj(cond, t) is FALSE:
            return FALSE
        if conj(cond, nt(t)) is FALSE:
            return TRUE
    return t


def forced(cond):
    """literals implied by a guard (top-level conjuncts)."""
    out = []
    c = cond
    while c.op == 'ite':
        if c.a[2] is FALSE:
            out.append((c.a[0], True))
            c = c.a[1]
        elif c.a[1] is FALSE:
            out.append((c.a[0], False))
            c = c.a[2]
        else:
            break
    if isatom_bool(c):
        out.append((c, True))
    return out


def splitcat(n, v, body):
    """pieces [(n_i, v_i, body_i)] when body indexes a concatenation of length n at v."""
    if v not in body.fv:
        return None
    for x in walk(body):
        if x.op == 'idx' and x.a[1] is v and x.a[0].op == 'cat' and v not in x.a[0].fv and \
                length(x.a[0]) is n:
            out = []
            off = ZERO
            for p in x.a[0].a[1:]:
                ln = length(p)
                w = var('k', 'int')
                UPPER[w] = ln
                b = mapterm(body, lambda y: idx(p, v) if y is x else y)
                # v on this piece is off + w; the piece itself is read at w
                hole = var('hole', typ(x))
                b = mapterm(body, lambda y: hole if y is x else y)
                b = subst(b, {v: add(off, w)})
                b = subst(b, {hole: idx(p, w)})
                out.append((ln, w, b))
                off = add(off, ln)
            return out
    return None


def tsum(n, v, body):
    body = asnum(body)
    sc = splitcat(n, v, body) if n.op == 'p' else None
    if sc:
        r = ZERO
        for a, w, b in sc:
            r = add(r, tsum(a, w, b))
        return r
    if n.op == 'ite':
        r = lift(lambda x: tsum(x, v, body), n)
        if r is not None:
            return r
    n = _clampn(n)
    if n is ZERO:
        return ZERO
    if is_arr(body):
        k = var('k', 'int')
        return tab('A', length(body), k, tsum(n, v, idx(body, k)))
    if v not in body.fv:
        return mul(n, body)
    if n.op == 'n' and n.a[0] <= 8 and n.a[0].denominator == 1:
        r = ZERO
        for i in range(int(n.a[0])):
            r = add(r, subst(body, {v: num(i)}))
        return r
    if body.op == 'ite':
        c = _indep_root(body, v)
        if c is not None:
            return ite(c, tsum(n, v, cofd(body, c, True)),
                       tsum(n, v, cofd(body, c, False)))
        # split per monomial
        monos = []
        for g, x in leafs(body, TRUE):
            for m in poly(x):
                if m not in monos:
                    monos.append(m)
        r = ZERO
        for m in monos:
            b = lift(lambda x: frompoly({m: poly(x)[m]} if m in poly(x) else {}), body)
            r = add(r, _sum1(n, v, b))
        return r
    if body.op == 'inf':
        return body
    r = ZERO
    for m, c in poly(body).items():
        r = add(r, _sum1(n, v, frompoly({m: c})))
    return r


def _sum1(n, v, b):
    """sum of a single-monomial body (or ite of such)."""
    if v not in b.fv:
        return mul(n, b)
    if b.op == 'ite':
        # pull the monomial factors that do not depend on v
        return close('sum', (n,), [v], (b,))
    P = poly(b)
    (m, c), = P.items()
    out = tuple((x, e) for x, e in m if v not in x.fv)
    inn = tuple((x, e) for x, e in m if v in x.fv)
    if inn == ((v, 1),):
        # sum of k = n(n-1)/2
        s = mul(num(Fraction(1, 2)), mul(n, sub(n, ONE)))
    else:
        inner = frompoly({inn: Fraction(1)})
        # sum_k of sum_j: order nested sums canonically when ranges are independent
        s = None
        if len(inn) == 1 and inn[0][1] == 1 and inn[0][0].op == 'sum':
            w, n2, b2 = opn(inn[0][0], fresh=True)
            if v not in n2.fv and n2.id < n.id:
                s2 = close('sum', (n,), [v], (b2,)) if _single(b2) else None
                if s2 is not None and v in b2.fv:
                    s = close('sum', (n2,), [w], (_sum1(n, v, b2),)) \
                        if w in b2.fv else None
        if s is None:
            s = close('sum', (n,), [v], (inner,))
    return mul(frompoly({out: c}), s)


def _single(b):
    return b.op not in ('ite',) and len(poly(b)) == 1


def tany(n, v, c):
    sc = splitcat(n, v, c) if n.op == 'p' else None
    if sc:
        return disj(*[tany(a, w, b) for a, w, b in sc])
    if n.op == 'ite':
        r = lift(lambda x: tany(x, v, c), n)
        if r is not None:
            return r
    n = _clampn(n)
    if c is FALSE or n is ZERO:
        return FALSE
    if v not in c.fv:
        return conj(c, nt(eq0(n)))
    if n.op == 'n' and n.a[0] <= 8 and n.a[0].denominator == 1:
        return disj(*[subst(c, {v: num(i)}) for i in range(int(n.a[0]))])
    a = _indep_root(c, v)
    if a is not None:
        return ite(a, tany(n, v, cofd(c, a, True)), tany(n, v, cofd(c, a, False)))
    # any(k: x[k]==y) is membership
    if c.op == 'eq0' or c.op == 'eq':
        r = _as_mem(n, v, c)
        if r is not None:
            return r
    return close('any', (n,), [v], (c,))


def _as_mem(n, v, c):
    if c.op == 'eq':
        x, y = c.a
        for p, q in ((x, y), (y, x)):
            if p.op == 'idx' and p.a[1] is v and v not in p.a[0].fv and v not in q.fv \
                    and length(p.a[0]) is n:
                return mem(q, p.a[0])
        return None
    P = poly(c.a[0])
    for m, co in P.items():
        if len(m) == 1 and m[0][1] == 1:
            p = m[0][0]
            if p.op == 'idx' and p.a[1] is v and v not in p.a[0].fv \
                    and length(p.a[0]) is n:
                rest = frompoly({k: -w / co for k, w in P.items() if k != m})
                if v not in rest.fv:
                    return mem(rest, p.a[0])
    return None


def tall(n, v, c):
    return nt(tany(n, v, nt(c)))


def first(n, v, c):
    n = _clampn(n)
    if c is FALSE:
        return n
    if c is TRUE:
        return ZERO
    a = _indep_root(c, v)
    if a is not None:
        return ite(a, first(n, v, cofd(c, a, True)), first(n, v, cofd(c, a, False)))
    if n.op == 'n' and n.a[0].denominator == 1 and 0 <= n.a[0] <= 16 and c.fv <= {v}:
        xs = [subst(c, {v: num(i)}) for i in range(int(n.a[0]))]
        if all(x.op == 'b' for x in xs):
            return num(xs.index(TRUE)) if TRUE in xs else n
    return close('first', (n,), [v], (c,))


def mmof(op, n, v, body):
    body = asnum(body)
    sc = splitcat(n, v, body) if n.op == 'p' else None
    if sc:
        xs = [mmof(op, a, w, b) for a, w, b in sc]
        return tmax(*xs) if op == 'maxof' else tmin(*xs)
    n = _clampn(n)
    empty = NINF if op == 'maxof' else INF
    if n is ZERO:
        return empty
    if body is empty:
        return empty
    if n.op == 'ite':
        r = lift(lambda x: mmof(op, x, v, body), n)
        if r is not None:
            return r
    if n.op == 'n' and n.a[0] <= 8 and n.a[0].denominator == 1:
        xs = [subst(body, {v: num(i)}) for i in range(int(n.a[0]))]
        return tmax(*xs) if op == 'maxof' else tmin(*xs)
    if v not in body.fv:
        return ite(eq0(n), empty, body)
    c = _indep_root(body, v)
    if c is not None and body.op == 'ite':
        return ite(c, mmof(op, n, v, cofd(body, c, True)),
                   mmof(op, n, v, cofd(body, c, False)))
    mop = op[:3]
    if body.op == mop:
        dep = [x for x in body.a if v in x.fv]
        ind = [x for x in body.a if v not in x.fv]
        if ind and dep:
            f = tmax if mop == 'max' else tmin
            return f(ite(eq0(n), empty, f(*ind)) if False else f(*ind),
                     mmof(op, n, v, f(*dep)))
    return close(op, (n,), [v], (body,))


def quant(n, v, body):
    n = _clampn(n)
    if n is ZERO or body is NONE:
        return NONE
    if body.op == 'q':
        w, n2, b2 = opn(body, fresh=True)
        if v not in n2.fv and n2.id < n.id:
            return close('q', (n2,), [w], (quant(n, v, b2),))
    return close('q', (n,), [v], (body,))


def mk_fold(n, tys, vs, bound):
    """fold over k<n of a tuple state. bound = inits + steps + (which,)"""
    return close('fold', (n, tys), vs, tuple(bound))


# ------------------------------------------------------------------ sequences
def lit(kd, *xs):
    return mk('lit', kd, *xs)


def cat(kd, *parts):
    if any(p.op == 'ite' for p in parts):
        r = lift(lambda *xs: cat(kd, *xs), *parts)
        if r is not None:
            return r
    out = []
    for p in parts:
        ps = p.a[1:] if p.op == 'cat' else (p,)
        for x in ps:
            if x.op == 'lit':
                if len(x.a) == 1:
                    continue
                if out and out[-1].op == 'lit':
                    out[-1] = mk('lit', kd, *(out[-1].a[1:] + x.a[1:]))
                    continue
                x = mk('lit', kd, *x.a[1:])
            out.append(x)
    if not out:
        return mk('lit', kd)
    if len(out) == 1:
        return askind(kd, out[0])
    return mk('cat', kd, *out)


def dims(t):
    op = t.op
    if op == 'sym' or op == 'var':
        return t.a[-1]
    if op == 'app':
        return None
    if op == 'idx':
        d = dims(t.a[0])
        if d and len(d) > 1:
            return d[1:]
        return None
    if op == 'as':
        return dims(t.a[1])
    return None


def length(t):
    op = t.op
    if op == 'ite':
        r = lift(length, t)
        if r is not None:
            return r
    if op == 'lit':
        return num(len(t.a) - 1)
    if op in ('tab',):
        return t.a[2]
    if op == 'ftab':
        v, n, c, b = opn(t)
        return tsum(n, v, ite(c, ONE, ZERO))
    if op == 'flat':
        v, n, b = opn(t)
        return tsum(n, v, length(b))
    if op == 'cat':
        r = ZERO
        for x in t.a[1:]:
            r = add(r, length(x))
        return r
    if op == 'store' and kind(t) in ('L', 'A'):
        return length(t.a[0])
    if op == 'scat' and kind(t) in ('L', 'A'):
        return length(t.a[1])
    if op == 'delat':
        return sub(length(t.a[0]), ONE)
    if op in ('as',):
        return length(t.a[1])
    if op in ('sort',):
        return length(t.a[0])
    if op == 'app' and t.a[0] in LENPRES:
        return length(t.a[2])
    if op == 'dict0':
        return ZERO
    if op == 's':
        return num(len(t.a[0]))
    d = dims(t)
    if d and d[0] is not None:
        return d[0]
    return mk('len', t)


LENPRES = {'argsort', 'perm', 'argsort_desc', 'round_arr', 'sortby', 'choice_perm'}


def idx(x, i):
    op = x.op
    if i.op == 'ite' or op == 'ite':
        r = lift(idx, x, i)
        if r is not None:
            return r
    if op == 'tab':
        v, n, b = opn(x)
        if i.op == 'n' and i.a[0] < 0:
            i = add(n, i)
        return subst(b, {v: i})
    if op == 'lit':
        xs = x.a[1:]
        if i.op == 'n' and i.a[0].denominator == 1:
            j = int(i.a[0])
            if -len(xs) <= j < len(xs):
                return xs[j]
            return mk('missing', x, i)
        if xs and len(xs) <= 12 and i.op != 'unk':
            if all(y is xs[0] for y in xs):
                return xs[0]
            r = xs[-1]
            for j in range(len(xs) - 2, -1, -1):
                r = ite(eq(i, num(j)), xs[j], r)
            return r
    if op == 'as':
        return idx(x.a[1], i)
    if op == 'store':
        b, j, v = x.a
        if kind(x) != 'D':
            if i.op == 'n' and i.a[0] < 0 and not (j.op == 'n' and j.a[0] < 0):
                i = add(length(b), i)
            if j.op == 'n' and j.a[0] < 0:
                j = add(length(b), j)
        c = eq(i, j)
        if c is TRUE:
            return v
        if c is FALSE:
            return idx(b, i)
        return ite(c, v, idx(b, i))
    if op == 'cat':
        if i.op == 'n' and i.a[0] < 0:
            i = add(length(x), i)
        off = ZERO
        for p in x.a[1:]:
            if p.op == 'lit':
                for y in p.a[1:]:
                    d = sub(i, off)
                    if d is ZERO:
                        return y
                    off = add(off, ONE)
            else:
                d = sub(i, off)
                l = length(p)
                if lt(d, l) is TRUE and le(ZERO, d) is TRUE:
                    return idx(p, d)
                off = add(off, l)
        # index known below the first part (a plain index of the old list)
        p0 = x.a[1]
        if i.op in ('var', 'sym', 'idx') and p0.op != 'lit':
            if UPPER.get(i) is length(p0):
                return idx(p0, i)
        return mk('idx', x, i)
    if op == 'scat':
        v, n, key, val, cond = opn(x)
        base = x.a[1]
        if key is v:
            c = subst(cond, {v: i})
            if kind(base) in ('L', 'A'):
                if i.op == 'n' and i.a[0] < 0:
                    i = add(length(base), i)
                c = conj(lt(i, n), subst(cond, {v: i}))
            return ite(c, subst(val, {v: i}),
                       idx(base, i) if base.op != 'dict0' else mk('missing', base, i))
        # express the value as a function of the key
        w = var('key', typ(key))
        val2 = subst(val, {key: w}) if key.op != 'n' else val
        cond2 = subst(cond, {key: w}) if key.op != 'n' else cond
        if v not in val2.fv and v not in cond2.fv and key.op != 'n':
            vv = subst(val2, {w: i})
            if base.op == 'dict0':
                return vv
            inn = subst(cond2, {w: i})
            return ite(conj(inn, tany(n, v, conj(cond, eq(key, i)))), vv, idx(base, i))
        return mk('idx', x, i)
    if op == 'dict0':
        return mk('missing', x, i)
    if op == 'unk':
        return mk('idx', x, i)
    if i.op == 'n' and i.a[0] < 0 and kind(x) != 'D':
        return mk('idx', x, add(length(x), i))
    if op == 'delat':
        pass
    return mk('idx', x, i)


def store(x, i, v):
    if x.op == 'ite' or i.op == 'ite':
        r = lift(lambda p, q: store(p, q, v), x, i)
        if r is not None:
            return r
    if x.op == 'lit' and i.op == 'n':
        j = int(i.a[0])
        xs = list(x.a[1:])
        if -len(xs) <= j < len(xs):
            xs[j] = v
            return mk('lit', x.a[0], *xs)
    if i.op == 'n' and i.a[0] < 0 and kind(x) in ('L', 'A'):
        i = add(length(x), i)
    if x.op == 'cat' and kind(x) in ('L', 'A'):
        off = ZERO
        parts = list(x.a[1:])
        for j, p in enumerate(parts):
            if p.op == 'lit':
                for q in range(1, len(p.a)):
                    if sub(i, off) is ZERO:
                        ys = list(p.a[1:])
                        ys[q - 1] = v
                        parts[j] = mk('lit', p.a[0], *ys)
                        return cat(x.a[0], *parts)
                    off = add(off, ONE)
            else:
                off = add(off, length(p))
    cur = idx(x, i)
    if cur is v:
        return x
    if x.op == 'store':
        if x.a[1] is i:
            return store(x.a[0], i, v)
        # order independent constant keys
        if isconst(i) and isconst(x.a[1]) and i.id < x.a[1].id and kind(x) == 'D':
            return mk('store', store(x.a[0], i, v), x.a[1], x.a[2])
    if v.op == 'ite' and False:
        pass
    return mk('store', x, i, v)


def scat(base, n, v, key, val, cond):
    """for k<n: if cond: base[key] = val   (keys distinct)."""
    n = _clampn(n)
    if cond is FALSE or n is ZERO:
        return base
    c = _indep_root(cond, v)
    if c is not None:
        return ite(c, scat(base, n, v, key, val, cofd(cond, c, True)),
                   scat(base, n, v, key, val, cofd(cond, c, False)))
    if kind(base) in ('L', 'A') and key is v and length(base) is n:
        return tab(kind(base), n, v, ite(cond, val, idx(base, v)))
    if kind(base) in ('L', 'A') and key is v and \
            base.op in ('tab',) and v not in base.fv and n is not length(base):
        # partial overwrite of a uniform table: keep as scat
        pass
    c = _indep_root(val, v) if val.op == 'ite' else None
    if c is not None:
        return ite(c, scat(base, n, v, key, cofd(val, c, True), cofd(cond, c, True)),
                   scat(base, n, v, key, cofd(val, c, False), cofd(cond, c, False)))
    return close('scat', (base, n), [v], (key, val, cond))


def mem(x, s):
    """x in s."""
    op = s.op
    if x.op == 'ite' or op == 'ite':
        r = lift(mem, x, s)
        if r is not None:
            return r
    if op == 'lit':
        return disj(*[eq(x, y) for y in s.a[1:]])
    if op == 'dict0':
        return FALSE
    if op == 'cat':
        return disj(*[mem(x, y) for y in s.a[1:]])
    if op == 'as':
        return mem(x, s.a[1])
    if op == 'store' and kind(s) == 'D':
        return disj(eq(x, s.a[1]), mem(x, s.a[0]))
    if op == 'scat' and kind(s) == 'D':
        v, n, key, val, cond = opn(s)
        return disj(tany(n, v, conj(cond, eq(key, x))), mem(x, s.a[1]))
    if op == 'tab':
        v, n, b = opn(s)
        if b is v:
            return conj(le(ZERO, x), lt(x, n))
        return tany(n, v, eq(b, x))
    if op == 'ftab':
        v, n, c, b = opn(s)
        if b is v:
            return conj(subst(c, {v: x}), le(ZERO, x), lt(x, n))
        return tany(n, v, conj(c, eq(b, x)))
    if op in ('sort',) or (op == 'app' and s.a[0] in ('perm', 'sortby', 'toset', 'frozenset')):
        return mem(x, s.a[0] if op == 'sort' else s.a[2])
    return mk('mem', x, s)


def seqslice(x, lo, hi, step):
    """Python slice of a sequence; None for absent."""
    if x.op == 'ite':
        r = lift(lambda y: seqslice(y, lo, hi, step), x)
        if r is not None:
            return r
    if x.op == 's' and all(b is None or b.op in ('n', 'none') for b in (lo, hi, step)):
        return const(x.a[0][slice(*[None if b is None or b.op == 'none' else int(b.a[0])
                                    for b in (lo, hi, step)])])
    kd = kind(x) or 'L'
    n = length(x)
    step = step if step is not None and step.op != 'none' else ONE
    if step.op == 'n' and step.a[0] < 0:
        if (lo is None or lo.op == 'none') and (hi is None or hi.op == 'none') \
                and step.a[0] == -1:
            k = var('k', 'int')
            UPPER[k] = n
            if x.op == 'lit':
                return mk('lit', kd, *reversed(x.a[1:]))
            return tab(kd, n, k, idx(x, sub(sub(n, ONE), k)))
        return app('slice', (kd, elemty(typ(x))), x, lo or NONE, hi or NONE, step)
    lo = ZERO if lo is None or lo.op == 'none' else lo
    hinone = hi is None or hi.op == 'none'
    hi = n if hinone else hi
    if x.op == 'lit' and lo.op == 'n' and hi.op == 'n' and step.op == 'n':
        return mk('lit', kd, *x.a[1:][int(lo.a[0]):int(hi.a[0]):int(step.a[0])])
    if lo.op == 'n' and lo.a[0] < 0:
        lo = add(n, lo)
    if hi.op == 'n' and hi.a[0] < 0:
        hi = add(n, hi)
    if lo is ZERO and hi is n and step is ONE:
        return x
    if x.op == 'cat' and step is ONE and hi is n:
        # drop a prefix of known length
        off = ZERO
        parts = list(x.a[1:])
        while parts and lo is not off:
            off = add(off, length(parts[0]))
            parts.pop(0)
        if lo is off:
            return cat(kd, *parts)
    if hi is not n:
        d = sub(n, hi)
        if not (nonneg(d)):
            hi = tmin(hi, n)
    cnt = sub(hi, lo)
    if step is not ONE:
        cnt = cdiv(cnt, step)
    k = var('k', 'int')
    UPPER[k] = cnt
    return tab(kd, cnt, k, idx(x, add(lo, mul(step, k))))


def cdiv(a, b):
    if b is ONE:
        return a
    if isint(a) and isint(b):
        return neg(fdiv(neg(a), b))
    return ceil(div(a, b))


def tsort(x, rev=FALSE):
    """sorted list of numbers/tuples."""
    if x.op == 'ite':
        r = lift(lambda y: tsort(y, rev), x)
        if r is not None:
            return r
    kd = kind(x) or 'L'
    if x.op == 'lit' and len(x.a) <= 2:
        return x
    if x.op == 'sort':
        base = x
    elif x.op == 'app' and x.a[0] == 'perm':
        base = mk('sort', x.a[2])
    else:
        base = mk('sort', x)
    if rev is TRUE:
        return seqslice(base, None, None, num(-1))
    return base


def strcat(*parts):
    out = []
    for p in parts:
        ps = p.a if p.op == 'strcat' else (p,)
        for x in ps:
            if x.op == 's':
                if x.a[0] == '':
                    continue
                if out and out[-1].op == 's':
                    out[-1] = mk('s', out[-1].a[0] + x.a[0])
                    continue
            out.append(x)
    if not out:
        return mk('s', '')
    if len(out) == 1 and typ(out[0]) == 'str':
        return out[0]
    return mk('strcat', *out)


def tstrcat(*parts):
    r = lift(strcat, *parts)
    return r if r is not None else strcat(*parts)


def tostr(t):
    if t.op == 'ite':
        r = lift(tostr, t)
        if r is not None:
            return r
    if t.op == 's':
        return t
    if typ(t) == 'str':
        return t
    if t.op == 'n' and t.a[0].denominator == 1:
        return mk('s', str(t.a[0].numerator))
    if t.op == 'b':
        return mk('s', str(t.a[0]))
    if t.op == 'none':
        return mk('s', 'None')
    return mk('str', t)


def fmt(spec, t):
    if t.op == 'ite':
        r = lift(lambda x: fmt(spec, x), t)
        if r is not None:
            return r
    if spec in ('', 's') and typ(t) == 'str':
        return t
    if spec in ('', 'd'):
        return tostr(t)
    if spec and spec[0] != '.' and spec.lstrip('0123456789')[:1] == '.' and False:
        pass
    return mk('fmt', spec, t)


REB = {}


def _reb_p(items):
    r = ZERO
    for m, c in items:
        x = num(c)
        for y, e in m:
            z = y
            if e < 0:
                z = inv(y)
                e = -e
            for _ in range(e):
                x = mul(x, z)
        r = add(r, x)
    return r


def _reb_ite(c, a, b):
    return ite(c, a, b)


REB.update({
    'p': _reb_p, 'ite': _reb_ite, 'le0': le0, 'eq0': eq0, 'eq': eq,
    'max': tmax, 'min': tmin, 'floor': floor, 'fdiv': fdiv, 'mod': mod,
    'pow': power, 'trunc': trunc, 'abs': tabs, 'round': tround,
    'pa': lambda x: x, 'idx': idx, 'store': store, 'len': length,
    'cat': lambda kd, *p: cat(kd, *p), 'as': askind, 'mem': mem,
    'truthy': truth, 'strcat': tstrcat, 'str': tostr, 'fmt': fmt,
    'sort': tsort,
})


# ------------------------------------------------------------------ misc
def walk(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        ys = [x.a]
        while ys:
            for y in ys.pop():
                if type(y) is T:
                    st.append(y)
                elif type(y) is tuple:
                    ys.append(y)


def unks(t):
    return [x for x in walk(t) if x.op == 'unk']


def mapterm(t, f, memo=None):
    """bottom-up rewriting f(term)->term."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op in BIND and op not in ('fold', 'lam'):
        o = opn(t, fresh=True)
        v = o[0]
        h, ub, bd = _split_args(t)
        nub = [mapterm(x, f, memo) if type(x) is T else x for x in ub]
        nbd = [mapterm(x, f, memo) for x in o[2:]]
        r = f(rebuild_binder(op, nub, v, nbd))
    elif op == 'fold':
        vs, n, bd = openfold(t)
        r = f(mk_fold(mapterm(n, f, memo), t.a[2], vs, [mapterm(x, f, memo) for x in bd]))
    else:
        def conv(a):
            out = []
            for x in a:
                if type(x) is T:
                    out.append(mapterm(x, f, memo))
                elif type(x) is tuple and x:
                    out.append(tuple(conv(x)))
                else:
                    out.append(x)
            return out
        na = conv(t.a)
        r = f(rebuild(op, na) if tuple(na) != t.a else t)
    memo[t] = r
    return r


def nokind(t):
    """erase list/array/tuple distinctions."""
    def f(x):
        if x.op == 'as':
            return x.a[1]
        if x.op in ('tab', 'ftab', 'flat') and x.a[1] != 'L':
            return mk(x.op, x.a[0], 'L', *x.a[2:])
        if x.op in ('lit', 'cat') and x.a[0] != 'L':
            return mk(x.op, 'L', *x.a[1:])
        return x
    return mapterm(t, f)


def show(t, depth=7):
    if depth < 0:
        return '…'
    op = t.op
    a = t.a
    s = lambda x: show(x, depth - 1) if type(x) is T else (
        '(' + ','.join(s(y) for y in x) + ')' if type(x) is tuple else str(x))
    if op == 'n':
        v = a[0]
        if v.denominator == 1:
            return str(v.numerator)
        f = float(v)
        return '%g' % f if Fraction(repr(f)) == v else '%d/%d' % (v.numerator, v.denominator)
    if op == 'b':
        return str(a[0])
    if op == 's':
        return repr(a[0])
    if op == 'none':
        return 'None'
    if op == 'inf':
        return 'inf' if a[0] > 0 else '-inf'
    if op == 'sym':
        return a[0]
    if op == 'var':
        return '%s%d' % (a[0], a[1])
    if op == 'B':
        return 'i%d%s' % (a[0], '' if a[1] == 0 else '.%d' % a[1])
    if op == 'p':
        out = []
        for m, c in a[0]:
            xs = []
            if c != 1 or m == ():
                xs.append(s(mk('n', c)))
            for x, e in m:
                xs.append(s(x) + ('' if e == 1 else '^%d' % e))
            out.append('*'.join(xs))
        return '(' + ' + '.join(out) + ')'
    if op == 'le0':
        return '[%s <= 0]' % s(a[0])
    if op == 'eq0':
        return '[%s == 0]' % s(a[0])
    if op == 'eq':
        return '[%s == %s]' % (s(a[0]), s(a[1]))
    if op == 'ite':
        return '(if %s then %s else %s)' % (s(a[0]), s(a[1]), s(a[2]))
    if op == 'idx':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if op == 'len':
        return 'len(%s)' % s(a[0])
    if op == 'lit':
        return '[' + ', '.join(s(x) for x in a[1:]) + ']'
    if op == 'tab':
        return '[%s | i%d<%s]' % (s(a[3]), a[0], s(a[2]))
    if op == 'ftab':
        return '[%s | i%d<%s, %s]' % (s(a[4]), a[0], s(a[2]), s(a[3]))
    if op == 'flat':
        return 'flat[%s | i%d<%s]' % (s(a[3]), a[0], s(a[2]))
    if op in ('sum', 'any', 'first', 'maxof', 'minof', 'q'):
        return '%s(i%d<%s: %s)' % (op, a[0], s(a[1]), s(a[2]))
    if op == 'app':
        return '%s(%s)' % (a[0], ', '.join(s(x) for x in a[2:]))
    if op == 'unk':
        return '?' + str(a[0])
    return '%s(%s)' % (op, ', '.join(s(x) for x in a))
