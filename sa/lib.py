"""Models of builtins, numpy, gurobipy and the standard library used by the repository.

Each model is a transfer function on value-graph terms; external effects
(model building, files, randomness, clock) are appended to the interpreter's
effect trace.
"""
import itertools
import ast
import os
from fractions import Fraction
from . import terms as tm
from .terms import (T, mk, TRUE, FALSE, NONE, UNDEF, ZERO, ONE, INF, NINF, num, const,
                    var, sym, app, unk, typ, kind, ite, nt, conj, disj, truth, idx,
                    store, length, cat, lit, tab, ftab, flat, tsum, tany, tall, first,
                    mmof, scat, mem, subst, add, sub, mul, div, neg, eq, le, lt,
                    seqslice, askind, restrict, lift)
from .pyfront import Class, Func

BUILTINS = {'len', 'range', 'enumerate', 'zip', 'sum', 'min', 'max', 'sorted', 'list', 'tuple',
            'set', 'frozenset', 'dict', 'int', 'float', 'bool', 'str', 'abs', 'round',
            'isinstance', 'hasattr', 'getattr', 'setattr', 'print', 'any', 'all', 'reversed',
            'map', 'filter', 'type', 'iter', 'next', 'open', 'divmod', 'pow', 'format', 'repr',
            'callable', 'object', 'id', 'hash', 'slice', 'issubclass', 'vars'}

GRBC = ['CONTINUOUS', 'BINARY', 'INTEGER', 'SEMICONT', 'MAXIMIZE', 'MINIMIZE',
        'LESS_EQUAL', 'GREATER_EQUAL', 'EQUAL', 'OPTIMAL', 'INFEASIBLE', 'INF_OR_UNBD',
        'UNBOUNDED', 'INTERRUPTED', 'TIME_LIMIT', 'LOADED', 'SUBOPTIMAL', 'USER_OBJ_LIMIT']
CONSTS = {
    'numpy.inf': INF, 'numpy.Inf': INF, 'numpy.Infinity': INF, 'math.inf': INF,
    'numpy.nan': tm.NAN, 'math.nan': tm.NAN, 'numpy.newaxis': NONE,
}
for _g in ('gurobipy.GRB', 'gurobipy.GRB.Status'):
    CONSTS.update({
        _g + '.INFINITY': INF,
        _g + '.CONTINUOUS': const('C'), _g + '.BINARY': const('B'), _g + '.INTEGER': const('I'),
        _g + '.MAXIMIZE': num(-1), _g + '.MINIMIZE': num(1),
        _g + '.LESS_EQUAL': const('<'), _g + '.GREATER_EQUAL': const('>'),
        _g + '.EQUAL': const('='),
        _g + '.LOADED': num(1), _g + '.OPTIMAL': num(2), _g + '.INFEASIBLE': num(3),
        _g + '.INF_OR_UNBD': num(4), _g + '.UNBOUNDED': num(5), _g + '.CUTOFF': num(6),
        _g + '.ITERATION_LIMIT': num(7), _g + '.NODE_LIMIT': num(8), _g + '.TIME_LIMIT': num(9),
        _g + '.SOLUTION_LIMIT': num(10), _g + '.INTERRUPTED': num(11), _g + '.NUMERIC': num(12),
        _g + '.SUBOPTIMAL': num(13), _g + '.USER_OBJ_LIMIT': num(15),
    })
for _c in ('MIP', 'MIPSOL', 'MIPNODE', 'POLLING', 'PRESOLVE', 'SIMPLEX', 'MESSAGE', 'BARRIER',
           'MIP_OBJBST', 'MIP_OBJBND', 'MIP_NODCNT', 'MIP_SOLCNT', 'RUNTIME', 'MIPSOL_OBJ',
           'MIPSOL_OBJBST', 'MIPSOL_OBJBND', 'MIPNODE_OBJBST', 'MIPNODE_OBJBND'):
    CONSTS['gurobipy.GRB.Callback.' + _c] = const('cb:' + _c)


class _AttrNames(dict):
    """GRB.Param.X and GRB.Attr.X are their own names."""

    def get(self, k, d=None):
        r = dict.get(self, k, None)
        if r is not None:
            return r
        for p in ('gurobipy.GRB.Param.', 'gurobipy.GRB.Attr.', 'gurobipy.GRB.param.',
                  'gurobipy.GRB.attr.'):
            if isinstance(k, str) and k.startswith(p):
                return const(k[len(p):])
        return d


CONSTS = _AttrNames(CONSTS)


# ------------------------------------------------------------------ utilities
def kvar(n):
    k = var('k', 'int')
    tm.UPPER[k] = tm._clampn(n)
    return k


def dv(I, v, st):
    return I.seq(v, st)


def fz(I, v, st):
    return I.freeze(I.seq(v, st), st)


def toarr(t):
    """nested list -> nested array."""
    if t.op == 'ite':
        return ite(t.a[0], toarr(t.a[1]), toarr(t.a[2]))
    kd = kind(t)
    if kd is None:
        return t
    if kd == 'A' and not _nested_list(t):
        return t
    if t.op == 'lit':
        return mk('lit', 'A', *[toarr(x) for x in t.a[1:]])
    if t.op == 'tab':
        v, n, b = tm.opn(t)
        return tab('A', n, v, toarr(b))
    if t.op == 'ftab':
        v, n, c, b = tm.opn(t)
        return ftab('A', n, v, c, toarr(b))
    if t.op == 'store':
        return store(toarr(t.a[0]), t.a[1], toarr(t.a[2]))
    if t.op == 'as':
        return toarr(t.a[1]) if kind(t.a[1]) == 'A' else askind('A', t.a[1])
    ty = typ(t)
    if isinstance(ty, tuple) and isinstance(ty[1], tuple) and ty[1][0] in 'LU':
        n = length(t)
        k = kvar(n)
        return tab('A', n, k, toarr(idx(t, k)))
    return askind('A', t)


def _nested_list(t):
    ty = typ(t)
    while isinstance(ty, tuple) and len(ty) > 1:
        if ty[0] in 'LU':
            return True
        ty = ty[1]
    return False


def elemwise(f, t):
    if t.op == 'ite':
        return ite(t.a[0], elemwise(f, t.a[1]), elemwise(f, t.a[2]))
    if t.op == 'unk':
        return unk('elemwise', t)
    if kind(t) in ('A', 'L', 'U'):
        n = length(t)
        k = kvar(n)
        return tab('A', n, k, elemwise(f, idx(t, k)))
    return f(t)


def elemwise2(f, a, b):
    ra, rb = rank(a), rank(b)
    if ra == 0 and rb == 0:
        return f(a, b)
    if ra >= rb:
        n = length(a)
        k = kvar(n)
        return tab('A', n, k, elemwise2(f, idx(a, k), idx(b, k) if ra == rb else b))
    n = length(b)
    k = kvar(n)
    return tab('A', n, k, elemwise2(f, a, idx(b, k)))


def rank(t):
    ty = typ(t)
    r = 0
    while isinstance(ty, tuple) and len(ty) > 1 and ty[0] in ('A', 'L', 'U'):
        r += 1
        ty = ty[1]
    return r


def shape(t):
    out = []
    while kind(t) in ('A', 'L', 'U') and len(out) < 6:
        n = length(t)
        out.append(n)
        if n is ZERO:
            break
        k = kvar(n)
        e = idx(t, k)
        if e.op == 'missing':
            break
        if kind(e) in ('A', 'L', 'U') and k in length(e).fv:
            out.append(None)
            break
        t = e
    return out


def fill(shp, v):
    r = v
    for n in reversed(shp):
        k = kvar(n)
        r = tab('A', n, k, r)
    return r


def shapeof(I, v, st):
    v = I.freeze(I.seq(v, st), st)
    if kind(v) in ('L', 'U', 'A'):
        n = length(v)
        if n.op != 'n':
            return None
        return [idx(v, num(i)) for i in range(int(n.a[0]))]
    return [v]


def dot(I, a, b, st):
    a, b = toarr(I.freeze(a, st)), toarr(I.freeze(b, st))
    if a.op == 'unk' or b.op == 'unk':
        return unk('dot', a, b)
    return _dot(a, b)


def _dot(a, b):
    if a.op == 'ite' or b.op == 'ite':
        r = lift(_dot, a, b)
        if r is not None:
            return r
    ra, rb = rank(a), rank(b)
    if ra == 0 or rb == 0:
        return mul(a, b)
    if ra == 1 and rb == 1:
        n1, n2 = length(a), length(b)
        n = n1 if n1 is n2 else (n2 if n1.op == 'len' and n2.op != 'len' else
                                 n1 if n2.op == 'len' and n1.op != 'len' else min(n1, n2))
        k = kvar(n)
        return tsum(n, k, mul(idx(a, k), idx(b, k)))
    if ra >= 2:
        n = length(a)
        k = kvar(n)
        return tab('A', n, k, _dot(idx(a, k), b))
    # vector . matrix
    n = length(a)
    k = kvar(n)
    m = shape(b)[1]
    j = kvar(m)
    return tab('A', m, j, tsum(n, k, mul(idx(a, k), idx(idx(b, k), j))))


def reduce_(f, t, axis):
    """f(n, k, body) reduction."""
    r = rank(t)
    if t.op == 'ite':
        return ite(t.a[0], reduce_(f, t.a[1], axis), reduce_(f, t.a[2], axis))
    if r == 0:
        if t.op in ('unk',) or typ(t) == 'any':
            return unk('reduce', t)
        return tm.asnum(t)
    n = length(t)
    k = kvar(n)
    if axis is None:
        e = idx(t, k)
        return f(n, k, reduce_(f, e, None) if rank(e) > 0 else e)
    if axis < 0:
        axis += r
    if axis > 0:
        return tab('A', n, k, reduce_(f, idx(t, k), axis - 1))
    if r == 1:
        return f(n, k, idx(t, k))
    s = shape(t)
    if len(s) < 2 or s[1] is None:
        return unk('axis reduction')
    j = kvar(s[1])
    # move the reduced axis inside
    inner = tab('A', n, k, idx(idx(t, k), j))
    return tab('A', s[1], j, reduce_(f, inner, 0))


def red_sum(n, k, e):
    return tsum(n, k, e)


def red_max(n, k, e):
    return mmof('maxof', n, k, e)


def red_min(n, k, e):
    return mmof('minof', n, k, e)


def red_any(n, k, e):
    return tany(n, k, truth(e))


def red_all(n, k, e):
    return tall(n, k, truth(e))


def red_count(n, k, e):
    return tsum(n, k, tm.asnum(truth(e)))


def mean(t, axis):
    s = reduce_(red_sum, t, axis)
    if axis is None:
        c = ONE
        sh = shape(t)
        if any(x is None for x in sh):
            return unk('mean')
        for x in sh:
            c = mul(c, x)
        return div(s, c)
    sh = shape(t)
    return div(s, sh[axis])


def argmm(op, t):
    if t.op == 'ite':
        return ite(t.a[0], argmm(op, t.a[1]), argmm(op, t.a[2]))
    n = length(t)
    k = kvar(n)
    best = mmof(op, n, k, idx(t, k))
    k2 = kvar(n)
    return first(n, k2, eq(idx(t, k2), best))


def argsort(t):
    if t.op == 'ite':
        return ite(t.a[0], argsort(t.a[1]), argsort(t.a[2]))
    return app('argsort', ('A', 'int'), askind('A', t))


def gather(x, order, kd):
    n = length(order)
    k = kvar(n)
    return tab(kd, n, k, idx(x, idx(order, k)))


def sortkeys(x, keys, rev, kd='L'):
    o = argsort(elemwise(neg, keys) if rev else keys)
    return gather(x, askind('L', o), kd)


def reshape(t, shp):
    """row-major reshape."""
    s = shape(t)
    if any(x is None for x in s) or not s:
        return unk('reshape')
    total = ONE
    for x in s:
        total = mul(total, x)
    if any(x.op == 'n' and x.a[0] == -1 for x in shp):
        rest = ONE
        for x in shp:
            if not (x.op == 'n' and x.a[0] == -1):
                rest = mul(rest, x)
        shp = [div(total, rest) if x.op == 'n' and x.a[0] == -1 else x for x in shp]
    src, dst = list(s), list(shp)
    trail = 0
    while len(src) > 1 and len(dst) > 1 and src[-1] is dst[-1]:
        src.pop()
        dst.pop()
        trail += 1
    vs = [kvar(n) for n in shp]
    lead = vs[:len(dst)]
    lin = ZERO
    for v, n in zip(lead, dst):
        lin = add(mul(lin, n), v)
    ix = []
    rem = lin
    for j in range(len(src)):
        blk = ONE
        for x in src[j + 1:]:
            blk = mul(blk, x)
        if len(src) == 1:
            ix.append(rem)
        elif j < len(src) - 1:
            ix.append(tm.fdiv(rem, blk) if j == 0 else tm.mod(tm.fdiv(rem, blk), src[j]))
        else:
            ix.append(tm.mod(rem, src[j]))
    e = t
    for i in ix + vs[len(dst):]:
        e = idx(e, i)
    r = e
    for v, n in zip(reversed(vs), reversed(shp)):
        r = tab('A', n, v, r)
    return r


def keyfn(I, f, x, st, node):
    """apply a key callable elementwise; returns array of keys."""
    n = length(x)
    k = kvar(n)
    if f.op == 'meth' and f.a[1] == 'get':
        d = I.D(f.a[0], st)
        return tab('A', n, k, idx(d, idx(x, k)))
    if f.op == 'meth' and f.a[1] == '__getitem__':
        d = I.D(f.a[0], st)
        return tab('A', n, k, idx(d, idx(x, k)))
    r = I.call(f, [idx(x, k)], {}, st, node)
    r = I.freeze(r, st)
    return tab('A', n, k, r)


def num_axis(kw, args, pos):
    a = kw.get('axis')
    if a is None and len(args) > pos:
        a = args[pos]
    if a is None or a.op == 'none':
        return None
    if a.op == 'n':
        return int(a.a[0])
    return 'bad'


def loopks(I):
    return tuple(getattr(I, 'loopks', ()))


def fresh(I, name, ty, st):
    """a value that is different at every dynamic evaluation."""
    c = I.counter(name)
    return app(name, ty, num(c), *loopks(I))


# ------------------------------------------------------------------ attributes
def seqattr(I, v, name, st):
    kd = kind(v)
    if v.op == 'ite' and kd:
        r = lift(lambda x: seqattr(I, x, name, st) or UNDEF, v)
        if r is not None and r is not UNDEF:
            return r
    if name == '__class__':
        if kd == 'L':
            return mk('ext', 'builtins.list')
        if kd == 'U':
            return mk('ext', 'builtins.tuple')
        if kd == 'D':
            return mk('ext', 'builtins.dict')
        if kd == 'A':
            return mk('ext', 'numpy.ndarray')
        t = typ(v)
        if t == 'int':
            return mk('ext', 'builtins.int')
        if t == 'num':
            return mk('ext', 'builtins.float')
        if t == 'str':
            return mk('ext', 'builtins.str')
        if v.op == 'range3':
            return mk('ext', 'builtins.range')
        return None
    if kd == 'A':
        if name == 'shape':
            s = shape(I.freeze(v, st))
            if any(x is None for x in s):
                return unk('shape')
            return lit('U', *s)
        if name == 'T':
            v = I.freeze(v, st)
            s = shape(v)
            if len(s) < 2:
                return v
            if s[1] is None:
                return unk('T')
            i, j = kvar(s[1]), kvar(s[0])
            return tab('A', s[1], i, tab('A', s[0], j, idx(idx(v, j), i)))
        if name == 'size':
            r = ONE
            for x in shape(I.freeze(v, st)):
                if x is None:
                    return unk('size')
                r = mul(r, x)
            return r
        if name == 'ndim':
            return num(rank(v))
        if name == 'dtype':
            return unk('dtype')
    if v.op == 'app' and v.a[0] == 'gvar':
        return gvar_attr(I, v, name, st)
    if v.op == 'cref':
        if name == 'Pi':
            return unk('dual')
    return None


def symattr(I, v, cls, name, st, node):
    """attribute of a symbolic object typed ('obj', classname)."""
    c = I.prog.find_class(cls)
    if c is not None:
        f = I.prog.method(c, name)
        if f is not None:
            return mk('symmeth', v, f, name)
    ty = getattr(I, 'fieldtypes', {}).get((cls, name), ('any', None))
    return mk('sym', '%s.%s' % (tm.show(v), name), ty[0], ty[1])


def gvar_attr(I, v, name, st):
    if name in ('X', 'x'):
        return app('X', 'num', v)
    if name in ('getAttr', 'setAttr'):
        return None
    if name == 'VarName':
        return unk('name')
    return app('gattr', 'num', const(name), v)


GATTR = {'ObjVal': 'num', 'ObjBound': 'num', 'Status': 'int', 'SolCount': 'int',
         'Runtime': 'num', 'MIPGap': 'num', 'ObjBoundC': 'num', 'NumConstrs': 'int',
         'NumVars': 'int', 'ModelSense': 'int', 'NodeCount': 'num', 'PoolObjVal': 'num'}
GNORM = {k.lower(): k for k in GATTR}


def model_id(I, v, st):
    h = st.heap[v.a[0]]
    return h[2]['$id']


def extattr(I, v, cls, fl, name, st, node):
    if cls == 'gp.Model':
        if name in ('Params', 'params'):
            return mk('params', v)
        if name.lower() in GNORM:
            nm = GNORM[name.lower()]
            return app('grb', GATTR[nm], const(nm), fl['$id'], fl.get('$tick', ZERO))
        if name in ('_vars',):
            return unk('model attr')
        return None
    return None


def extset(I, o, cls, fl, name, v, st, node):
    if cls == 'gp.Model':
        if name.lower() == 'modelsense':
            I.eff('sense', (fl['$id'], v), st, node)
        return False
    return False


# ------------------------------------------------------------------ external calls
IGN = {'print'}


def call_ext(I, d, args, kw, st, node):
    if d.startswith('builtins.'):
        return call_builtin(I, d[9:], args, kw, st, node)
    h = EXT.get(d)
    if h is not None:
        return h(I, args, kw, st, node)
    if d.startswith('numpy.random') or d.startswith('random.'):
        return call_random(I, d, args, kw, st, node)
    r = pylib_call(I, d, args, kw, st, node)
    if r is not None:
        return r
    if d.startswith('numpy.'):
        h = NP.get(d[6:])
        if h is not None:
            kw = {k: fz(I, a, st) for k, a in kw.items()}
            for k in NP_OPT:
                if k in kw and (kw[k].op == 'none' or kw[k] is FALSE):
                    del kw[k]
            if any(k in NP_OPT for k in kw):
                return unk('np option')
            return box(I, h(I, [fz(I, a, st) for a in args], kw, st, node), st)
    if d.startswith('signal.') or d.startswith('os.') or d.startswith('sys.') or \
            d.startswith('logging') or d.startswith('warnings'):
        fa = [I.freeze(I.D(a, st), st) for a in args]
        if d in PATHFN and fa and all(a.op == 's' for a in fa) and not kw:
            import posixpath
            r = getattr(posixpath, d[8:])(*[a.a[0] for a in fa])
            return const(r) if isinstance(r, str) else lit('U', *[const(x) for x in r])
        I.eff('ext:' + d, fa, st, node)
        ty = 'bool' if d.endswith('exists') or d.endswith('isdir') or d.endswith('isfile') else \
            'str' if d.startswith('os.path') else 'any'
        return app(d, ty, *fa)
    h = I.stubs.get('ext:' + d.rsplit('.', 1)[-1])
    if h is not None:
        return h(I, args, kw, st, node)
    I.notes.append(('unknown external', d, I.where(node, st)))
    fa = [I.freeze(I.D(a, st), st) for a in args]
    I.eff('ext:' + d, fa, st, node)
    for a in args:
        if a.op == 'ref':
            hh = st.heap.get(a.a[0])
            if hh and hh[0] == 'box':
                pass
    return unk('external ' + d)


NP_OPT = {'where', 'initial', 'keepdims', 'out', 'weights', 'ddof', 'method', 'interpolation',
          'casting', 'subok', 'returned', 'ord', 'sorter', 'return_inverse', 'return_index',
          'return_counts', 'assume_unique', 'invert', 'equal_nan'}
PYLIB = os.path.join(os.path.dirname(__file__), 'pylib.py')


def box(I, v, st):
    return I.rebox(v, st)


def inline_pylib(I, fname, args, kw, st, node):
    if 'vlib' not in I.prog.modules:
        I.prog.load('vlib', PYLIB)
    f = I.prog.modules['vlib'].defs[fname]
    vis = set(I.visited)
    try:
        return I.call_func(f, list(args), kw, st, node)
    finally:
        I.visited = vis


def pylib_call(I, d, args, kw, st, node):
    """inline the body of a library function given in pylib.py; None if there is none."""
    pick = PY.get(d)
    if pick is None:
        return None
    if not callable(pick):
        if kw or (isinstance(pick, tuple) and len(args) not in pick[1:]):
            return unk('library ' + d)
        return inline_pylib(I, pick[0] if isinstance(pick, tuple) else pick, args, {}, st, node)
    F = [fz(I, a, st) if a.op in ('ref', 'ite') and not isfun(a) else a for a in args]
    K = {k: (fz(I, a, st) if not isfun(a) else a) for k, a in kw.items()}
    r = pick(I, F, K)
    if r is None:
        return unk('library ' + d)
    if r == 'NP':
        return None
    return inline_pylib(I, r[0], r[1:], {}, st, node)


def isfun(a):
    return a.op in ('fnv', 'clsv', 'bound', 'meth', 'ext', 'partialv')


def _none(x):
    return x is None or x.op == 'none'


def _axis(K, F, i):
    x = K.get('axis', F[i] if len(F) > i else None)
    if _none(x):
        return None
    return int(x.a[0]) if x.op == 'n' else 'bad'


def _p_tile(I, F, K):
    a, r = toarr(F[0]), K.get('reps', F[1] if len(F) > 1 else None)
    if r is None:
        return None
    if r.op == 'lit':
        r = list(r.a[1:])
        if len(r) == 1:
            return ('tile1', a, r[0]) if rank(a) == 1 else None
        if len(r) == 2:
            return ('tile2', a, r[0], r[1]) if rank(a) == 1 else ('tile22', a, r[0], r[1]) \
                if rank(a) == 2 else None
        return None
    return ('tile1', a, r) if rank(a) == 1 and kind(r) is None else None


def _p_repeat(I, F, K):
    a, r = toarr(F[0]), K.get('repeats', F[1] if len(F) > 1 else None)
    ax = _axis(K, F, 2)
    if r is None or kind(r):
        return None
    if kind(a) is None:
        return ('repeat_np', a, r)
    if rank(a) == 1 and ax in (None, 0, -1) or rank(a) > 1 and ax == 0:
        return 'np_repeat', a, r
    return None


def _p_delete(I, F, K):
    a, i = toarr(F[0]), F[1]
    ax = _axis(K, F, 2)
    if rank(a) == 1 and ax in (None, 0, -1) or rank(a) > 1 and ax == 0:
        if kind(i):
            return 'np_delete_seq', a, i
        return 'np_delete', a, add(i, ite(lt(i, ZERO), length(a), ZERO))
    return None


def _p_quantile(nm):
    def g(I, F, K):
        if set(K) - {'method', 'interpolation', 'q'} or len(F) > 2:
            return None
        m = K.get('method', K.get('interpolation'))
        m = 'linear' if m is None else m.a[0] if m.op == 's' else '?'
        a, q = toarr(F[0]), K.get('q', F[1] if len(F) > 1 else None)
        if rank(a) != 1 or q is None or kind(q):
            return None
        if nm == 'percentile':
            q = div(q, num(100))
        f = {'linear': 'np_quantile', 'lower': 'np_quantile_lower',
             'higher': 'np_quantile_higher'}.get(m)
        return (f, a, q) if f else None
    return g


def _p_stack(nm):
    def g(I, F, K):
        x = F[0]
        ax = _axis(K, F, 1)
        n0 = idx(x, ZERO) if kind(x) else None
        if n0 is None:
            return None
        r = rank(toarr(n0))
        if nm == 'stack' and ax in (None, 0):
            return ('np_stack', x)
        if nm == 'column_stack' and r == 1 or nm == 'stack' and ax in (1, -1) and r == 1:
            return ('np_column_stack', x)
        if nm == 'vstack':
            return ('np_vstack', x) if r == 1 else ('np_vstack2', x) if r == 2 else None
        return None
    return g


def _p_reduce(I, F, K):
    if K or len(F) not in (2, 3):
        return None
    return ('reduce',) + tuple(F) if len(F) == 2 else ('reduce_init',) + tuple(F)


def _p_heap(nm):
    def g(I, F, K):
        k = K.get('key', F[2] if len(F) > 2 else None)
        return (nm, F[0], F[1]) if _none(k) else (nm + '_key', F[0], F[1], k)
    return g


def _p_norm(I, F, K):
    o = K.get('ord', F[1] if len(F) > 1 else None)
    if _none(o) or (o.op == 'n' and o.a[0] == 2 and rank(toarr(F[0])) == 1):
        return 'NP' if 'ord' not in K and len(F) == 1 else ('norm2', toarr(F[0]))
    if rank(toarr(F[0])) != 1:
        return None
    if o is INF:
        return 'norminf', toarr(F[0])
    if o.op == 'n' and o.a[0] == 1:
        return 'norm1', toarr(F[0])
    return None


def _p_average(I, F, K):
    w = K.get('weights', F[2] if len(F) > 2 else None)
    ax = _axis(K, F, 1)
    if _none(w):
        return 'NP'
    a = toarr(F[0])
    if rank(a) == 1:
        return 'np_average_w', a, toarr(w)
    if rank(a) == 2 and ax == 0:
        return 'np_average_w2', a, toarr(w)
    return None


def _p_clip(I, F, K):
    F = F + [K[k] for k in ('a_min', 'a_max') if k in K]
    if len(F) != 3:
        return None
    a, lo, hi = F
    if lo.op == 'none':
        lo = NINF
    if hi.op == 'none':
        hi = INF
    return 'np_clip', toarr(a), lo, hi


def _p_red(nm):
    def g(I, F, K):
        K = {k: v for k, v in K.items() if k not in NP_OPT or not (
            v.op == 'none' or v is FALSE or (k == 'where' and v is TRUE))}
        a = toarr(F[0])
        if nm == 'sum' and set(K) == {'where'} and rank(a) == 1:
            return 'np_sum_where', a, K['where']
        if nm in ('max', 'min') and set(K) == {'initial'} and rank(a) == 1:
            return 'np_%s_initial' % nm, a, K['initial']
        return 'NP'
    return g


def _p_diff(I, F, K):
    a = toarr(F[0])
    return ('np_diff', a) if len(F) == 1 and not K and rank(a) == 1 else None


def _p_accum(I, F, K):
    return ('accumulate', F[0]) if len(F) == 1 and not K else None


def _p_part(nm):
    def g(I, F, K):
        a = toarr(F[0])
        return ('np_' + nm, a, F[1]) if rank(a) == 1 else None
    return g


def _p_outer(I, F, K):
    a, b = toarr(F[0]), toarr(F[1])
    return ('np_outer', a, b) if rank(a) == rank(b) == 1 and not K else None


PY = {
    'numpy.tile': _p_tile, 'numpy.repeat': _p_repeat, 'numpy.delete': _p_delete,
    'numpy.quantile': _p_quantile('quantile'), 'numpy.percentile': _p_quantile('percentile'),
    'numpy.vstack': _p_stack('vstack'), 'numpy.stack': _p_stack('stack'),
    'numpy.column_stack': _p_stack('column_stack'), 'numpy.linalg.norm': _p_norm,
    'numpy.average': _p_average, 'numpy.clip': _p_clip, 'numpy.diff': _p_diff,
    'numpy.sum': _p_red('sum'), 'numpy.max': _p_red('max'), 'numpy.min': _p_red('min'),
    'numpy.outer': _p_outer, 'numpy.multiply.outer': _p_outer,
    'numpy.partition': _p_part('partition'), 'numpy.argpartition': _p_part('argpartition'),
    'numpy.ptp': ('np_ptp', 1), 'numpy.median': ('np_median', 1), 'numpy.eye': ('np_eye', 1),
    'numpy.identity': ('np_eye', 1), 'numpy.setdiff1d': ('np_setdiff1d', 2),
    'numpy.intersect1d': ('np_intersect1d', 2), 'numpy.union1d': ('np_union1d', 2),
    'numpy.take': ('np_take', 2), 'numpy.linspace': ('np_linspace', 3),
    'numpy.fromiter': lambda I, F, K: ('np_fromiter', F[0]),
    'numpy.hypot': ('np_hypot', 2), 'numpy.var': ('np_var', 1),
    'functools.reduce': _p_reduce, 'itertools.accumulate': _p_accum,
    'itertools.takewhile': ('takewhile', 2), 'itertools.pairwise': ('pairwise', 1),
    'itertools.compress': ('compress', 2), 'itertools.filterfalse': ('filterfalse', 2),
    'itertools.starmap': ('starmap', 2), 'itertools.repeat': ('repeat_n', 2),
    'heapq.nlargest': _p_heap('nlargest'), 'heapq.nsmallest': _p_heap('nsmallest'),
    'bisect.bisect_left': ('bisect_left', 2), 'bisect.bisect_right': ('bisect_right', 2),
    'bisect.bisect': ('bisect_right', 2), 'bisect.insort': ('insort', 2),
    'statistics.mean': ('statistics_mean', 1), 'statistics.fmean': ('statistics_mean', 1),
    'math.prod': ('math_prod', 1),
}
for _o in ('add', 'sub', 'mul', 'truediv', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'and_', 'or_',
           'not_', 'neg', 'contains', 'getitem'):
    PY['operator.' + _o] = 'op_' + _o.rstrip('_')


def call_builtin(I, nm, args, kw, st, node):
    A = args
    if nm == 'print':
        return NONE
    if nm == 'len':
        v = I.seq(A[0], st)
        if v.op == 'ref':
            return I.call_method(v, '__len__', [], {}, st, node)
        if v.op == 'unk':
            return unk('len', v)
        if kind(v) == 'D':
            return dictlen(I, v, st)
        return length(v)
    if nm == 'range':
        a = [tm.trunc(tm.asnum(I.freeze(I.D(x, st), st))) for x in A]
        if any(x.op == 'unk' for x in a):
            return unk('range')
        if len(a) == 1:
            return mk('range3', ZERO, a[0], ONE)
        if len(a) == 2:
            return mk('range3', a[0], a[1], ONE)
        return mk('range3', *a)
    if nm == 'enumerate':
        s = kw.get('start', A[1] if len(A) > 1 else ZERO)
        return mk('enum', A[0], s)
    if nm == 'zip':
        return mk('zip', *A)
    if nm in ('list', 'tuple', 'set', 'frozenset'):
        kd = {'list': 'L', 'tuple': 'U', 'set': 'S', 'frozenset': 'S'}[nm]
        if not A:
            return box(I, lit(kd), st)
        from .interp import drop_none
        s = I.aslist(A[0], st) if I.D(A[0], st).op != 'ite' else drop_none(I.seq(A[0], st))
        if s is None or s.op == 'unk':
            return unk(nm)
        r = askind(kd, s)
        if nm == 'frozenset':
            return I.freeze(r, st)
        return box(I, r, st) if kd != 'U' else r
    if nm == 'dict':
        if not A:
            d = mk('dict0')
            for k, v in kw.items():
                d = store(d, const(k), v)
            return I.box(d, st)
        v = I.D(A[0], st)
        if kind(v) == 'D' or v.op == 'dict0':
            return I.box(v, st)
        x = I.aslist(A[0], st)
        if x is not None:
            return I.box(dict_from_pairs(x), st)
        return unk('dict()')
    if nm in ('int',):
        if not A:
            return ZERO
        v = I.freeze(I.D(A[0], st), st)
        if v.op == 's':
            try:
                return num(int(v.a[0]))
            except ValueError:
                return unk('int', v)
        if typ(v) == 'str':
            return app('int', 'int', v)
        if v.op == 'unk':
            return unk('int', v)
        return tm.trunc(tm.asnum(v))
    if nm == 'float':
        v = I.freeze(I.D(A[0], st), st)
        if v.op == 's':
            try:
                return num(float(v.a[0]))
            except ValueError:
                return unk('float')
        if typ(v) == 'str':
            return app('float', 'num', v)
        if typ(v) == 'any':
            return app('float', 'num', v)
        return tm.asnum(v)
    if nm == 'bool':
        return truth(I.dtruth(A[0], st)) if A else FALSE
    if nm in ('str', 'repr'):
        if not A:
            return const('')
        return tm.tostr(I.freeze(I.D(A[0], st), st))
    if nm == 'format':
        v = I.freeze(I.D(A[0], st), st)
        return tm.fmt(A[1].a[0] if len(A) > 1 and A[1].op == 's' else '', v)
    if nm == 'abs':
        return tm.tabs(I.freeze(I.D(A[0], st), st))
    if nm == 'round':
        v = I.freeze(I.D(A[0], st), st)
        return tm.tround(v, A[1] if len(A) > 1 else ZERO)
    if nm == 'pow':
        return tm.power(A[0], A[1])
    if nm == 'divmod':
        return lit('U', tm.fdiv(A[0], A[1]), tm.mod(A[0], A[1]))
    if nm == 'sum':
        x = listof(I, A[0], st)
        if x is None or x.op == 'unk':
            return unk('sum')
        s = A[1] if len(A) > 1 else kw.get('start', ZERO)
        s = I.freeze(I.D(s, st), st)
        if kind(s) == 'L':
            n = length(x)
            k = kvar(n)
            return box(I, cat('L', s, flat('L', n, k, idx(x, k))), st)
        return add(s, seqsum(x))
    if nm in ('min', 'max'):
        return minmax(I, nm, A, kw, st, node)
    if nm == 'sorted':
        x = listof(I, A[0], st)
        if x is None or x.op == 'unk':
            return unk('sorted')
        rev = truth(kw.get('reverse', FALSE))
        key = kw.get('key')
        if key is not None and key.op != 'none':
            ks = keyfn(I, key, x, st, node)
            if rev.op != 'b':
                return unk('sorted reverse')
            return box(I, sortkeys(x, ks, rev is TRUE), st)
        return box(I, askind('L', tm.tsort(askind('L', I.freeze(x, st)), rev)), st)
    if nm in ('any', 'all'):
        x = listof(I, A[0], st)
        if x is None or x.op == 'unk':
            return unk(nm)
        if x.op == 'ftab':
            v, n, c, b = tm.opn(x)
            return tany(n, v, conj(c, truth(b))) if nm == 'any' else \
                tall(n, v, disj(nt(c), truth(b)))
        n = length(x)
        k = kvar(n)
        e = truth(idx(x, k))
        return tany(n, k, e) if nm == 'any' else tall(n, k, e)
    if nm == 'reversed':
        x = listof(I, A[0], st)
        if x is None:
            return unk('reversed')
        return seqslice(x, None, None, num(-1))
    if nm in ('map', 'filter'):
        x = listof(I, A[1], st)
        if x is None or x.op == 'unk':
            return unk(nm)
        if nm == 'map' and len(A) > 2:
            xs = [listof(I, a, st) for a in A[1:]]
            n = I.ziplen(xs)
            k = kvar(n)
            return tab('L', n, k, I.freeze(I.call(A[0], [idx(y, k) for y in xs], {}, st, node),
                                           st))
        if x.op == 'ftab':
            v, n, c, b = tm.opn(x)
            r = I.freeze(I.call(A[0], [b], {}, st, node), st)
            return ftab('L', n, v, c, r) if nm == 'map' else \
                ftab('L', n, v, conj(c, truth(r)), b)
        n = length(x)
        k = kvar(n)
        e = idx(x, k)
        f = A[0]
        if nm == 'filter' and f.op == 'none':
            return ftab('L', n, k, truth(e), e)
        r = I.freeze(I.call(f, [e], {}, st, node), st)
        return tab('L', n, k, r) if nm == 'map' else ftab('L', n, k, truth(r), e)
    if nm == 'isinstance':
        return isinst(I, A[0], A[1], st)
    if nm == 'hasattr':
        v = A[0]
        if v.op == 'ref' and A[1].op == 's':
            h = st.heap.get(v.a[0])
            if h and h[0] == 'obj' and isinstance(h[1], Class):
                if A[1].a[0] in h[2]:
                    u = _undefc(h[2][A[1].a[0]])
                    return nt(u)
                return TRUE if I.prog.method(h[1], A[1].a[0]) or \
                    I.prog.classattr(h[1], A[1].a[0]) else FALSE
        return unk('hasattr')
    if nm == 'getattr':
        if A[1].op == 's':
            if len(A) > 2 and A[0].op == 'ref':
                has = call_builtin(I, 'hasattr', A[:2], {}, st, node)
                if has is FALSE:
                    return A[2]
            return I.getattr_(A[0], A[1].a[0], st, node)
        return unk('getattr')
    if nm == 'setattr':
        if A[1].op == 's':
            I.setattr_(A[0], A[1].a[0], A[2], st, node)
            return NONE
        return unk('setattr')
    if nm == 'type':
        return I.getattr_(A[0], '__class__', st, node)
    if nm == 'iter':
        return A[0]
    if nm == 'next':
        x = listof(I, A[0], st)
        if x is None or x.op == 'unk':
            return unk('next')
        if x.op == 'ftab':
            v, n, c, b = tm.opn(x)
            f = first(n, v, c)
            r = subst(b, {v: f})
            if len(A) > 1:
                return ite(lt(f, n), r, A[1])
            return r
        return idx(x, ZERO)
    if nm == 'open':
        p = I.freeze(I.D(A[0], st), st)
        m = A[1] if len(A) > 1 else kw.get('mode', const('r'))
        I.eff('open', (p, m), st, node)
        I.nalloc += 1
        st.heap[I.nalloc] = ('obj', 'file', {'$path': p, '$mode': m})
        return mk('ref', I.nalloc)
    if nm == 'callable':
        return TRUE if A[0].op in ('fnv', 'clsv', 'bound', 'meth', 'ext') else unk('callable')
    if nm == 'object.__init__':
        return NONE
    if nm == 'id' and args and args[0].op == 'ref':
        return num(10**6 + args[0].a[0])
    if nm == 'id' and args and typ(args[0]) in ('int', 'num', 'bool', 'str'):
        return app('id', 'int', args[0])
    if nm in ('id', 'hash'):
        return unk(nm)
    if nm == 'vars':
        return mk('dictof', A[0])
    if nm == 'slice':
        a = list(A)
        if len(a) == 1:
            a = [NONE, a[0], NONE]
        while len(a) < 3:
            a.append(NONE)
        return mk('slice3', *a)
    if nm.endswith('Error') or nm.endswith('Exception') or nm in ('KeyboardInterrupt',
                                                                  'SystemExit'):
        return unk('exception object')
    I.notes.append(('unknown builtin', nm, I.where(node, st)))
    return unk('builtin ' + nm)


def dict_from_pairs(x):
    if x.op == 'lit':
        d = mk('dict0')
        for p in x.a[1:]:
            d = store(d, idx(p, ZERO), idx(p, ONE))
        return d
    if x.op == 'ftab':
        v, n, c, b = tm.opn(x)
        return scat(mk('dict0'), n, v, idx(b, ZERO), idx(b, ONE), c)
    n = length(x)
    k = kvar(n)
    e = idx(x, k)
    return scat(mk('dict0'), n, k, idx(e, ZERO), idx(e, ONE), TRUE)


def dictlen(I, v, st):
    if v.op == 'ite':
        return ite(v.a[0], dictlen(I, v.a[1], st), dictlen(I, v.a[2], st))
    ks = I.dictkeys(v, st)
    if ks is None:
        return mk('len', v)
    if ks is not None and ks[0] == 'lit':
        return num(len(ks[1]))
    n, key, cond = ks
    if cond is None:
        return n
    k = kvar(n)
    return tsum(n, k, tm.asnum(cond(k)))


def _undefc(v):
    from .interp import undef_cond
    if v is UNDEF:
        return TRUE
    return undef_cond(v)


def listof(I, v, st):
    d = I.D(v, st)
    if d.op == 'ite':
        a, b = listof(I, d.a[1], st), listof(I, d.a[2], st)
        if a is None or b is None:
            return None
        return ite(d.a[0], a, b)
    if kind(d) in ('L', 'A', 'U', 'S') and d.op not in ('range3',):
        return I.freeze(d, st)
    return I.aslist(v, st)


def seqsum(x):
    if x.op == 'ite':
        return ite(x.a[0], seqsum(x.a[1]), seqsum(x.a[2]))
    if x.op == 'lit':
        r = ZERO
        for y in x.a[1:]:
            r = add(r, y)
        return r
    if x.op == 'cat':
        r = ZERO
        for y in x.a[1:]:
            r = add(r, seqsum(y))
        return r
    if x.op == 'ftab':
        v, n, c, b = tm.opn(x)
        return tsum(n, v, ite(c, tm.asnum(b), ZERO))
    if x.op == 'flat':
        v, n, b = tm.opn(x)
        return tsum(n, v, seqsum(b))
    n = length(x)
    k = kvar(n)
    return tsum(n, k, idx(x, k))


def seqmm(op, x):
    f = tm.tmax if op == 'maxof' else tm.tmin
    if x.op == 'ite':
        return ite(x.a[0], seqmm(op, x.a[1]), seqmm(op, x.a[2]))
    if x.op == 'lit' and len(x.a) > 1:
        return f(*x.a[1:])
    if x.op == 'cat':
        return f(*[seqmm(op, y) for y in x.a[1:]])
    if x.op == 'ftab':
        v, n, c, b = tm.opn(x)
        return mmof(op, n, v, ite(c, tm.asnum(b), NINF if op == 'maxof' else INF))
    if x.op == 'flat':
        v, n, b = tm.opn(x)
        return mmof(op, n, v, seqmm(op, b))
    n = length(x)
    k = kvar(n)
    return mmof(op, n, k, idx(x, k))


def minmax(I, nm, A, kw, st, node):
    op = nm + 'of'
    key = kw.get('key')
    if len(A) > 1:
        xs = [I.freeze(I.D(a, st), st) for a in A]
        if key is not None and key.op != 'none':
            return pick(lit('L', *xs), keyfn(I, key, lit('L', *xs), st, node), op)
        if any(x.op == 'unk' for x in xs):
            return unk(nm, *xs)
        if any(kind(x) for x in xs):
            return unk(nm)
        return tm.tmax(*xs) if nm == 'max' else tm.tmin(*xs)
    x = listof(I, A[0], st)
    if x is None or x.op == 'unk':
        return unk(nm)
    if key is not None and key.op != 'none':
        return pick(x, keyfn(I, key, x, st, node), op)
    ty = typ(x)
    if isinstance(ty, tuple) and isinstance(ty[1], tuple):
        return app(nm + 'seq', ty[1], x)
    r = seqmm(op, x)
    d = kw.get('default')
    if d is not None:
        return ite(eq(length(x), ZERO), d, r)
    return r


def pick(x, keys, op):
    return idx(x, argmm(op, keys))


def isinst(I, v, c, st):
    if c.op == 'lit':
        r = FALSE
        for y in c.a[1:]:
            r = disj(r, isinst(I, v, y, st))
        return r
    if v.op == 'ite':
        return ite(v.a[0], isinst(I, v.a[1], c, st), isinst(I, v.a[2], c, st))
    if v.op == 'ref':
        h = st.heap.get(v.a[0])
        if h and h[0] == 'obj':
            if c.op == 'clsv':
                return TRUE if isinstance(h[1], Class) and c.a[0] in I.prog.mro(h[1]) else FALSE
            return FALSE
        v = I.D(v, st)
        if v.op == 'ite':
            return isinst(I, v, c, st)
    if v.op == 'unk':
        return unk('isinstance')
    if c.op == 'clsv':
        ty = typ(v)
        if isinstance(ty, tuple) and ty[0] == 'obj':
            k = I.prog.find_class(ty[1])
            if k is not None:
                return TRUE if c.a[0] in I.prog.mro(k) else FALSE
        if ty == 'any':
            return unk('isinstance')
        return FALSE
    if c.op == 'ext':
        n = c.a[0].split('.')[-1]
        kd = kind(v)
        m = {'list': 'L', 'tuple': 'U', 'dict': 'D', 'set': 'S', 'ndarray': 'A',
             'frozenset': 'S'}
        if n in m:
            if typ(v) == 'any':
                return app('isinst', 'bool', const(n), v)
            return TRUE if kd == m[n] else FALSE
        t = typ(v)
        if t == 'any':
            return app('isinst', 'bool', const(n), v)
        if n in ('int', 'integer', 'Integral', 'int64'):
            return TRUE if t == 'int' or (v.op == 'n' and tm.isint(v)) else FALSE
        if n in ('float', 'Number', 'Real', 'floating'):
            return TRUE if t in ('num',) else FALSE
        if n == 'str':
            return TRUE if t == 'str' else FALSE
        if n == 'bool':
            return TRUE if t == 'bool' else FALSE
        return FALSE
    return unk('isinstance')


# ------------------------------------------------------------------ gurobi
def gp_model(I, args, kw, st, node):
    I.nalloc += 1
    mid = mk('mdl', num(I.counter('mdl')), *loopks(I))
    nm = args[0] if args else kw.get('name', NONE)
    st.heap[I.nalloc] = ('obj', 'gp.Model', {'$id': mid, '$tick': ZERO})
    I.eff('model', (mid,), st, node)
    return mk('ref', I.nalloc)


def per_index(I, v, n, k, default, st):
    if v is None:
        return default
    v = I.freeze(I.seq(v, st), st)
    if kind(v) in ('A', 'L', 'U', 'D'):
        return idx(v, k)
    return v


def gvar(grp, *ks):
    return app('gvar', 'num', grp, *ks)


def norm_bounds(lb, ub, vt):
    """binary variables are clipped to [0,1]."""
    def f(vt, lb, ub):
        if vt.op == 's' and vt.a[0] == 'B':
            if lb is NINF:
                lb = ZERO
            if ub is INF:
                ub = ONE
            l2 = tm.tmax(lb, ZERO)
            u2 = tm.tmin(ub, ONE)
            return lit('U', l2, u2, vt)
        return lit('U', lb, ub, vt)
    r = lift(f, vt, lb, ub)
    return r if r is not None else f(vt, lb, ub)


def add_vars(I, m, args, kw, st, node):
    grp = mk('grp', model_id(I, m, st), num(I.counter('grp')), *loopks(I))
    idxs = [I.freeze(I.seq(a, st), st) for a in args]
    dimsn = []
    for d in idxs:
        if kind(d) in ('L', 'A', 'U'):
            dimsn.append(length(d))
            k = kvar(length(d))
            if idx(d, k) is not k:
                return unk('addVars over keys')
        else:
            dimsn.append(tm.trunc(tm.asnum(d)))
    ks = [kvar(n) for n in dimsn]
    if len(ks) == 1:
        k = ks[0]
        vt = per_index(I, kw.get('vtype'), dimsn[0], k, const('C'), st)
        lb = per_index(I, kw.get('lb'), dimsn[0], k, ZERO, st)
        ub = per_index(I, kw.get('ub'), dimsn[0], k, INF, st)
        I.eff('gvars', (grp, tab('L', dimsn[0], k, norm_bounds(lb, ub, vt))), st, node)
        o = kw.get('obj')
        if o is not None:
            I.eff('gobj', (grp, tab('L', dimsn[0], k, per_index(I, o, dimsn[0], k, ZERO, st))),
                  st, node)
        return I.box(tab('D', dimsn[0], k, gvar(grp, k)), st)
    return unk('multi-index variables')


def add_var(I, m, args, kw, st, node):
    names = ['lb', 'ub', 'obj', 'vtype', 'name']
    kw = dict(kw)
    for n, a in zip(names, args):
        kw[n] = a
    grp = mk('grp', model_id(I, m, st), num(I.counter('grp')), *loopks(I))
    g = lambda n, d: I.freeze(I.D(kw[n], st), st) if n in kw else d
    I.eff('gvars', (grp, lit('L', norm_bounds(g('lb', ZERO), g('ub', INF),
                                             g('vtype', const('C'))))), st, node)
    if 'obj' in kw:
        I.eff('gobj', (grp, lit('L', g('obj', ZERO))), st, node)
    return gvar(grp, ZERO)


def cref(m, c):
    return mk('cref', m, c)


def add_constr(I, m, args, kw, st, node):
    c = I.freeze(I.D(args[0] if args else kw.get('constr', kw.get('tc', NONE)), st), st)
    mid = model_id(I, m, st)
    I.eff('constr', (mid, c), st, node)
    return cref(mid, c)


def add_constrs(I, m, args, kw, st, node):
    g = I.freeze(I.seq(args[0], st), st)
    mid = model_id(I, m, st)
    if g.op == 'unk':
        I.eff('constr', (mid, unk('addConstrs')), st, node)
        return unk('addConstrs')
    if g.op == 'ftab':
        v, n, c, b = tm.opn(g)
        g0 = st.g
        I.trace.append(_eff('constr', (mid, b), conj(g0, c), I.where(node, st), [(v, n)]))
        return unk('addConstrs')
    n = length(g)
    k = kvar(n)
    I.trace.append(_eff('constr', (mid, idx(g, k)), st.g, I.where(node, st), [(k, n)]))
    return I.box(tab('D', n, k, cref(mid, idx(g, k))), st)


def _eff(kd, args, g, site, qs):
    from .interp import Eff
    return Eff(kd, args, g, site, qs)


def senserel(lhs, sense, rhs):
    if sense.op == 's':
        if sense.a[0] == '<':
            return le(lhs, rhs)
        if sense.a[0] == '>':
            return le(rhs, lhs)
        if sense.a[0] == '=':
            return eq(lhs, rhs)
    return unk('sense')


def add_ind(I, m, args, kw, st, node):
    a = [I.freeze(I.D(x, st), st) for x in args]
    names = ['binvar', 'binval', 'lhs', 'sense', 'rhs', 'name']
    d = dict(zip(names, a))
    for k, v in kw.items():
        d[k] = I.freeze(I.D(v, st), st)
    body = d.get('lhs')
    if body is None:
        body = unk('indicator')
    if not tm.isbool(body):
        body = senserel(body, d.get('sense', NONE), d.get('rhs', ZERO))
    bv = d.get('binval', ONE)
    c = mk('ind', eq(d['binvar'], tm.asnum(bv)), body)
    mid = model_id(I, m, st)
    I.eff('constr', (mid, c), st, node)
    return cref(mid, c)


def callback_loop(I, m, cb, st, node):
    """the solver invokes the callback an unknown number of times."""
    n = sym('~ncb', 'int')

    def body(s, k):
        where = app('cbwhere', 'any', k)
        I.in_callback = getattr(I, 'in_callback', 0) + 1
        try:
            I.call(cb, [m, where], {}, s, node)
        finally:
            I.in_callback -= 1
        from .interp import Outs
        return Outs(s)
    from .interp import CompNode
    nd = CBNode(node)
    o = I.run_loop(n, body, st, None, nd)
    s = o.next
    st.env, st.heap, st.org, st.g = s.env, s.heap, s.org, s.g


class CBNode:
    def __init__(self, node):
        self.lineno = getattr(node, 'lineno', None)
        self.callback = True
        self.body = []


def grb_method(I, m, name, args, kw, st, node):
    h = st.heap[m.a[0]]
    mid = h[2]['$id']
    f = lambda v: I.freeze(I.D(v, st), st)
    if name == 'addVars':
        return add_vars(I, m, args, kw, st, node)
    if name == 'addVar':
        return add_var(I, m, args, kw, st, node)
    if name in ('addConstr', 'addLConstr'):
        if len(args) >= 3:
            c = senserel(f(args[0]), f(args[1]), f(args[2]))
            I.eff('constr', (mid, c), st, node)
            return cref(mid, c)
        return add_constr(I, m, args, kw, st, node)
    if name == 'addConstrs':
        return add_constrs(I, m, args, kw, st, node)
    if name == 'addGenConstrIndicator':
        return add_ind(I, m, args, kw, st, node)
    if name == 'setObjective':
        e = f(args[0])
        s = f(args[1]) if len(args) > 1 else f(kw.get('sense', num(1)))
        I.eff('obj', (mid, e, s), st, node)
        return NONE
    if name == 'setParam':
        nm = f(args[0]) if args else f(kw['paramname'])
        v = f(args[1]) if len(args) > 1 else f(kw.get('newvalue', NONE))
        I.eff('param', (mid, nm, v), st, node)
        return NONE
    if name == 'setAttr':
        I.eff('mattr', (mid,) + tuple(f(a) for a in args), st, node)
        return NONE
    if name == 'getAttr':
        a = f(args[0])
        if a.op == 's' and a.a[0].lower() in GNORM:
            return extattr(I, m, 'gp.Model', h[2], a.a[0], st, node)
        if a.op == 's' and a.a[0] == 'X' and len(args) > 1:
            xs = I.freeze(I.seq(args[1], st), st)
            n = length(xs)
            k = kvar(n)
            r = tab('D' if kind(xs) == 'D' else 'L', n, k, app('X', 'num', idx(xs, k)))
            return I.box(r, st)
        return unk('getAttr')
    if name == 'optimize':
        cb = args[0] if args else kw.get('callback')
        I.eff('optimize', (mid,), st, node)
        fl = dict(h[2])
        fl['$tick'] = add(fl.get('$tick', ZERO), ONE)
        st.heap[m.a[0]] = ('obj', 'gp.Model', fl)
        if cb is not None and cb.op != 'none':
            callback_loop(I, m, cb, st, node)
        return NONE
    if name == 'remove':
        x = f(args[0])
        if kind(x) == 'D':
            ks = I.dictkeys(x, st)
            x = listof(I, mk('values', x), st) or unk('remove')
        if kind(x) in ('L', 'A', 'U'):
            if x.op == 'lit':
                for y in x.a[1:]:
                    I.eff('remove', (mid, y), st, node)
            else:
                n = length(x)
                k = kvar(n)
                I.trace.append(_eff('remove', (mid, idx(x, k)), st.g, I.where(node, st),
                                    [(k, n)]))
            return NONE
        I.eff('remove', (mid, x), st, node)
        return NONE
    if name in ('update', 'dispose', 'write', 'terminate', 'reset', 'computeIIS', 'close'):
        if name in ('write', 'terminate'):
            I.eff('m:' + name, (mid,), st, node)
        return NONE
    if name == 'cbGet':
        return app('cbGet', 'num', f(args[0]), *loopks(I)[-1:])
    if name == 'getVars':
        return unk('getVars')
    I.notes.append(('unknown model method', name, I.where(node, st)))
    return unk('model.' + name)


def quicksum(I, args, kw, st, node):
    x = listof(I, args[0], st)
    if x is None or x.op == 'unk':
        return unk('quicksum')
    return seqsum(I.freeze(x, st))


def linexpr(I, args, kw, st, node):
    if not args:
        return I.box_lin(ZERO, st) if hasattr(I, 'box_lin') else ZERO
    a = [I.freeze(I.seq(x, st), st) for x in args]
    if len(a) == 1:
        if is_arr(a[0]):
            return unk('linear expression')
        return a[0]
    if not is_arr(a[0]) and not is_arr(a[1]):
        return mul(a[0], a[1])
    return _dot(toarr(a[0]), toarr(a[1]))


def iexit(I, args, kw, st, node):
    from .interp import Dead
    I.eff('raise', (const('SystemExit'),), st, node)
    raise Dead()


def itime(I, args, kw, st, node):
    if getattr(I, 'now_hook', None):
        return I.now_hook(I, st)
    return reading(I, st, node)


def reading(I, st, node, *family):
    t = app('now', 'num', num(I.counter('now')), *(family + tuple(loopks(I))))
    if getattr(I, 'log_time', False):
        I.eff('now', (t,), st, node)
    return t


def otherclock(name):
    """a clock with an origin of its own: only differences of its own readings mean anything."""
    def f(I, args, kw, st, node):
        if getattr(I, 'now_hook', None):
            return I.now_hook(I, st)
        return reading(I, st, node, const('clock:' + name))
    return f


def icopy(I, args, kw, st, node):
    v = args[0]
    if v.op == 'ref':
        h = st.heap.get(v.a[0])
        if h[0] == 'box':
            return I.box(h[1], st)
        I.nalloc += 1
        st.heap[I.nalloc] = ('obj', h[1], dict(h[2]))
        return mk('ref', I.nalloc)
    if v.op == 'ite':
        return I.onleaves(v, st, lambda x, s: icopy(I, [x], {}, s, node))
    return box(I, v, st)


def ideepcopy(I, args, kw, st, node):
    v = args[0]
    if v.op == 'ref':
        h = st.heap.get(v.a[0])
        if h[0] == 'box':
            return I.box(I.freeze(h[1], st), st)
        I.nalloc += 1
        new = I.nalloc
        fl = {}
        for k, x in h[2].items():
            if x.op == 'ref' and st.heap.get(x.a[0], (0,))[0] == 'box':
                fl[k] = I.box(I.freeze(x, st), st)
            else:
                fl[k] = x
        st.heap[new] = ('obj', h[1], fl)
        return mk('ref', new)
    return box(I, I.freeze(v, st), st)


def imath1(f):
    def g(I, args, kw, st, node):
        v = I.freeze(I.D(args[0], st), st)
        if v.op == 'unk':
            return unk('math', v)
        return f(v)
    return g


def norm(t, axis=None):
    n = length(t)
    if rank(t) > 1:
        if axis == 1 or axis == -1:
            k = kvar(n)
            return tab('A', n, k, norm(idx(t, k)))
        return unk('norm')
    k = kvar(n)
    e = idx(t, k)
    return tm.power(tsum(n, k, mul(e, e)), num(Fraction(1, 2)))


def csv_writer(I, args, kw, st, node):
    f = args[0]
    p = st.heap[f.a[0]][2].get('$path', NONE) if f.op == 'ref' and f.a[0] in st.heap else NONE
    d = kw.get('delimiter', const(','))
    if d.op == 's' and d.a[0] != ',':
        p = lit('U', p, d)
    I.nalloc += 1
    st.heap[I.nalloc] = ('obj', 'csv.writer', {'$path': p})
    return mk('ref', I.nalloc)


def csv_reader(I, args, kw, st, node):
    f = args[0]
    p = st.heap[f.a[0]][2].get('$path', NONE) if f.op == 'ref' and f.a[0] in st.heap else NONE
    q = kw.get('quoting')
    ety = 'num' if q is not None and q.op == 'ext' and 'NONNUMERIC' in q.a[0] else 'str'
    d = kw.get('delimiter', const(','))
    nm = 'csvrows' if d.op == 's' and d.a[0] == ',' else 'csvrows:' + tm.show(d)
    return app(nm, ('L', ('L', ety)), p)


def partial(I, args, kw, st, node):
    return mk('partialv', args[0], tuple(args[1:]), tuple(sorted(kw.items())))



def chain(I, args, kw, st, node):
    xs = [listof(I, a, st) for a in args]
    if any(x is None for x in xs):
        return unk('chain')
    return cat('L', *[askind('L', x) for x in xs])


def chain_from(I, args, kw, st, node):
    x = listof(I, args[0], st)
    if x is None:
        return unk('chain')
    n = length(x)
    k = kvar(n)
    return flat('L', n, k, askind('L', idx(x, k)))


def iproduct(I, args, kw, st, node):
    xs = [listof(I, a, st) for a in args]
    for q, x in enumerate(xs):
        n = length(x) if x is not None and x.op != 'lit' else None
        if n is not None and n.op == 'n' and n.a[0] <= 16:
            xs[q] = lit('L', *[idx(x, num(j)) for j in range(int(n.a[0]))])
    if all(x is not None and x.op == 'lit' for x in xs):
        n = 1
        for x in xs:
            n *= len(x.a) - 1
        if n <= 2048:
            return lit('L', *[lit('U', *c) for c in
                              itertools.product(*[x.a[1:] for x in xs])])
    if any(x is None for x in xs) or len(xs) != 2:
        if len(xs) == 3 and all(x is not None for x in xs):
            ns = [length(x) for x in xs]
            k, j, i = [kvar(n) for n in ns]
            return flat('L', ns[0], k, flat('L', ns[1], j, tab('L', ns[2], i, lit(
                'U', idx(xs[0], k), idx(xs[1], j), idx(xs[2], i)))))
        return unk('product')
    n, m = length(xs[0]), length(xs[1])
    k, j = kvar(n), kvar(m)
    return flat('L', n, k, tab('L', m, j, lit('U', idx(xs[0], k), idx(xs[1], j))))


def islice(I, args, kw, st, node):
    x = listof(I, args[0], st)
    a = list(args[1:])
    if len(a) == 1:
        a = [NONE, a[0]]
    return seqslice(x, a[0], a[1], a[2] if len(a) > 2 else None)


def itemgetter(I, args, kw, st, node):
    return mk('itemgetter', *args)


EXT = {
    'gurobipy.Model': gp_model, 'gurobipy.quicksum': quicksum, 'gurobipy.LinExpr': linexpr,
    'gurobipy.Env': lambda I, a, k, s, n: sym('grbenv', 'any'),
    'time.time': itime, 'time.perf_counter': otherclock('perf_counter'),
    'time.monotonic': otherclock('monotonic'), 'time.process_time': otherclock('process_time'),
    'time.thread_time': otherclock('thread_time'),
    'copy.copy': icopy, 'copy.deepcopy': ideepcopy,
    'math.floor': imath1(lambda v: tm.floor(v)), 'math.ceil': imath1(lambda v: tm.ceil(v)),
    'math.trunc': imath1(lambda v: tm.trunc(v)),
    'math.sqrt': imath1(lambda v: tm.power(v, num(Fraction(1, 2)))),
    'math.isinf': imath1(lambda v: disj(eq(v, INF), eq(v, NINF))),
    'math.isnan': imath1(lambda v: app('isnan', 'bool', v)),
    'math.isfinite': imath1(lambda v: nt(disj(eq(v, INF), eq(v, NINF)))),
    'math.isclose': lambda I, a, k, s, n: app('isclose', 'bool', *[
        I.freeze(I.D(x, s), s) for x in a]),
    'math.fsum': lambda I, a, k, s, n: call_builtin(I, 'sum', a, k, s, n),
    'math.fabs': imath1(lambda v: tm.tabs(v)),
    'csv.writer': csv_writer, 'csv.reader': csv_reader,
    'functools.partial': partial,
    'itertools.chain': chain, 'itertools.chain.from_iterable': chain_from,
    'itertools.product': iproduct, 'itertools.islice': islice,
    'itertools.count': lambda I, a, k, s, n: mk('countfrom', a[0] if a else ZERO),
    'collections.OrderedDict': lambda I, a, k, s, n: call_builtin(I, 'dict', a, k, s, n),
    'operator.itemgetter': itemgetter,
    'sys.exit': iexit, 'os._exit': iexit, 'builtins.exit': iexit,
    'signal.alarm': lambda I, a, k, s, n: (I.eff('alarm', [I.freeze(a[0], s)], s, n), NONE)[1],
}


# ------------------------------------------------------------------ numpy
def np1(f):
    def g(I, a, kw, st, node):
        return f(a[0]) if a[0].op != 'unk' else unk('np', a[0])
    return g


def np_array(I, a, kw, st, node):
    r = toarr(a[0])
    if 'dtype' in kw:
        r = astype(r, kw['dtype'])
    return r


def astype(t, d):
    n = d.a[0] if d.op in ('s', 'ext') else ''
    n = n.split('.')[-1]
    if n.startswith('int'):
        return elemwise(lambda x: tm.trunc(tm.asnum(x)) if typ(x) in ('num', 'int', 'bool')
                        else app('int', 'int', x), t)
    if n.startswith('bool'):
        return elemwise(lambda x: truth(x), t)
    if n.startswith('float') or n in ('double',):
        return elemwise(lambda x: tm.asnum(x) if typ(x) in ('num', 'int', 'bool')
                        else app('float', 'num', x), t)
    return t


def np_fill(v):
    def g(I, a, kw, st, node):
        sh = shapeof(I, a[0] if a else kw['shape'], st)
        if sh is None:
            return unk('shape')
        x = v
        d = kw.get('dtype', a[1] if len(a) > 1 else None)
        r = fill(sh, x)
        if d is not None and d.op in ('ext', 's'):
            r = astype(r, d)
        return r
    return g


def np_full(I, a, kw, st, node):
    sh = shapeof(I, a[0] if a else kw['shape'], st)
    if sh is None:
        return unk('shape')
    v = a[1] if len(a) > 1 else kw['fill_value']
    if kind(v):
        return bcast_to(toarr(v), sh)
    r = fill(sh, v)
    if 'dtype' in kw:
        r = astype(r, kw['dtype'])
    return r


def bcast_to(v, sh):
    r = rank(v)
    if r == 0:
        return fill(sh, v)
    lead = sh[:len(sh) - r]
    return fill(lead, v)


def np_bcast(I, a, kw, st, node):
    sh = shapeof(I, a[1], st)
    if sh is None:
        return unk('shape')
    v = toarr(a[0])
    n = sh[-1]
    if rank(v) == 1 and length(v) is not n and length(v).op == 'len':
        k = kvar(n)
        v = tab('A', n, k, idx(v, k))
    return bcast_to(v, sh)


def np_like(v):
    def g(I, a, kw, st, node):
        x = v if v is not None else (a[1] if len(a) > 1 else kw['fill_value'])
        return elemwise(lambda _: x, toarr(a[0]))
    return g


def np_red(f):
    def g(I, a, kw, st, node):
        ax = num_axis(kw, a, 1)
        t = toarr(a[0])
        if ax == 'bad' or t.op == 'unk':
            return unk('axis')
        if ax is None and t.op in ('ftab', 'cat', 'flat') and rank(t) == 1:
            if f is red_sum:
                return seqsum(t)
            if f in (red_max, red_min):
                return seqmm('maxof' if f is red_max else 'minof', t)
        return reduce_(f, t, ax)
    return g


def np_mean(I, a, kw, st, node):
    ax = num_axis(kw, a, 1)
    t = toarr(a[0])
    if ax == 'bad' or t.op == 'unk':
        return unk('axis')
    return mean(t, ax)


def np_where(I, a, kw, st, node):
    if len(a) == 1:
        c = toarr(a[0])
        if kind(c) is None:
            return unk('where')
        n = length(c)
        k = kvar(n)
        return lit('U', ftab('A', n, k, truth(idx(c, k)), k))
    c, x, y = [toarr(v) for v in a]

    def go(c, x, y):
        r = max(rank(c), rank(x), rank(y))
        if r == 0:
            return ite(truth(c), x, y)
        src = [v for v in (c, x, y) if rank(v) == r][0]
        n = length(src)
        k = kvar(n)
        return tab('A', n, k, go(*[idx(v, k) if rank(v) == r else v for v in (c, x, y)]))
    return go(c, x, y)


def np_flatnonzero(I, a, kw, st, node):
    c = toarr(a[0])
    if kind(c) is None:
        return unk('flatnonzero')
    n = length(c)
    k = kvar(n)
    return ftab('A', n, k, truth(idx(c, k)), k)


def np_delete(I, a, kw, st, node):
    c = toarr(a[0])
    if len(a) < 2 or kind(c) is None or len(a) > 2 or 'axis' in kw:
        return unk('np.delete')
    n = length(c)
    k = kvar(n)
    w = a[1]
    if kind(w) in ('L', 'A', 'U'):
        cond = nt(tm.mem(k, w))
    elif typ(w) in ('int', 'num'):
        cond = nt(eq(k, ite(lt(w, ZERO), add(w, n), w)))
    else:
        return unk('np.delete')
    return ftab('A', n, k, cond, idx(c, k))


def np_binop(f):
    def g(I, a, kw, st, node):
        x, y = toarr(a[0]), toarr(a[1])
        if x.op == 'unk' or y.op == 'unk':
            return unk('np binop', x, y)
        return elemwise2(f, x, y)
    return g


def np_arange(I, a, kw, st, node):
    if len(a) == 1:
        lo, hi, s = ZERO, a[0], ONE
    else:
        lo, hi = a[0], a[1]
        s = a[2] if len(a) > 2 else ONE
    from .interp import range_len
    n = range_len(lo, hi, s)
    k = kvar(n)
    return tab('A', n, k, add(lo, mul(s, k)))


def np_sort(I, a, kw, st, node):
    return askind('A', tm.tsort(askind('A', toarr(a[0]))))


def np_round(I, a, kw, st, node):
    d = kw.get('decimals', a[1] if len(a) > 1 else ZERO)
    return elemwise(lambda x: tm.tround(x, d), toarr(a[0]))


def np_cumsum(I, a, kw, st, node):
    t = toarr(a[0])
    n = length(t)
    k = kvar(n)
    j = var('k', 'int')
    m = add(k, ONE)
    tm.UPPER[j] = m
    return tab('A', n, k, tsum(m, j, idx(t, j)))


def np_searchsorted(I, a, kw, st, node):
    """first position with t[k] >= v (side left)."""
    t, v = toarr(a[0]), a[1]
    side = kw.get('side', const('left'))
    if kind(v):
        return unk('searchsorted')
    n = length(t)
    k = kvar(n)
    e = idx(t, k)
    return first(n, k, le(v, e) if side.a[0] == 'left' else lt(v, e))


def np_concat(I, a, kw, st, node):
    x = a[0]
    if x.op == 'lit':
        return cat('A', *[askind('A', toarr(y)) for y in x.a[1:]])
    n = length(x)
    k = kvar(n)
    return flat('A', n, k, toarr(idx(x, k)))


def np_append(I, a, kw, st, node):
    y = a[1]
    y = toarr(y) if kind(y) else lit('A', y)
    return cat('A', toarr(a[0]), y)


def np_norm(I, a, kw, st, node):
    if len(a) > 1 or 'ord' in kw:
        return unk('norm ord')
    ax = num_axis(kw, a, 9)
    t = toarr(a[0])
    if kind(t) is None:
        return unk('norm')
    return norm(t, ax)


def np_dot(I, a, kw, st, node):
    return dot(I, a[0], a[1], st)


def np_insert(I, a, kw, st, node):
    t, i, v = toarr(a[0]), a[1], a[2]
    if kind(i) or kind(v):
        return unk('insert')
    return cat('A', askind('A', seqslice(t, None, i, None)), lit('A', v),
               askind('A', seqslice(t, i, None, None)))


def np_isin(I, a, kw, st, node):
    s = a[1]
    return elemwise(lambda x: mem(x, s), toarr(a[0]))


def np_unary(f):
    def g(I, a, kw, st, node):
        if a[0].op == 'unk':
            return unk('np', a[0])
        return elemwise(f, toarr(a[0]) if kind(a[0]) else a[0])
    return g


def np_reshape(I, a, kw, st, node):
    return reshape(toarr(a[0]), shapeof(I, a[1], st))


NP = {
    'array': np_array, 'asarray': np_array, 'ascontiguousarray': np_array,
    'asanyarray': np_array, 'copy': np_array,
    'zeros': np_fill(ZERO), 'ones': np_fill(ONE), 'empty': np_fill(mk('unk', 'empty')),
    'full': np_full, 'broadcast_to': np_bcast,
    'zeros_like': np_like(ZERO), 'ones_like': np_like(ONE), 'full_like': np_like(None),
    'sum': np_red(red_sum), 'max': np_red(red_max), 'min': np_red(red_min),
    'amax': np_red(red_max), 'amin': np_red(red_min), 'any': np_red(red_any),
    'all': np_red(red_all), 'count_nonzero': np_red(red_count), 'mean': np_mean,
    'average': np_mean,
    'argsort': lambda I, a, kw, st, n: argsort(toarr(a[0])) if a[0].op != 'unk' else unk('as'),
    'argmax': lambda I, a, kw, st, n: argmm('maxof', toarr(a[0])),
    'argmin': lambda I, a, kw, st, n: argmm('minof', toarr(a[0])),
    'where': np_where, 'nonzero': np_where, 'flatnonzero': np_flatnonzero,
    'delete': np_delete,
    'maximum': np_binop(tm.tmax), 'minimum': np_binop(tm.tmin), 'add': np_binop(add),
    'subtract': np_binop(sub), 'multiply': np_binop(mul), 'divide': np_binop(div),
    'true_divide': np_binop(div), 'floor_divide': np_binop(tm.fdiv),
    'less_equal': np_binop(le), 'less': np_binop(lt),
    'greater_equal': np_binop(lambda x, y: le(y, x)), 'greater': np_binop(lambda x, y: lt(y, x)),
    'equal': np_binop(eq), 'not_equal': np_binop(lambda x, y: nt(eq(x, y))),
    'logical_and': np_binop(lambda x, y: conj(truth(x), truth(y))),
    'logical_or': np_binop(lambda x, y: disj(truth(x), truth(y))),
    'logical_not': np_unary(lambda x: nt(truth(x))),
    'negative': np_unary(neg), 'abs': np_unary(tm.tabs), 'absolute': np_unary(tm.tabs),
    'floor': np_unary(tm.floor), 'ceil': np_unary(tm.ceil), 'rint': np_unary(
        lambda x: tm.tround(x, ZERO)),
    'sqrt': np_unary(lambda x: tm.power(x, num(Fraction(1, 2)))),
    'square': np_unary(lambda x: mul(x, x)),
    'isfinite': np_unary(lambda v: nt(disj(eq(v, INF), eq(v, NINF)))),
    'isinf': np_unary(lambda v: disj(eq(v, INF), eq(v, NINF))),
    'isnan': np_unary(lambda v: app('isnan', 'bool', v)),
    'arange': np_arange, 'sort': np_sort, 'round': np_round, 'around': np_round,
    'cumsum': np_cumsum, 'searchsorted': np_searchsorted, 'concatenate': np_concat,
    'hstack': np_concat, 'append': np_append, 'linalg.norm': np_norm, 'matmul': np_dot,
    'dot': np_dot, 'inner': np_dot, 'vdot': np_dot, 'insert': np_insert, 'isin': np_isin,
    'in1d': np_isin, 'reshape': np_reshape,
    'allclose': lambda I, a, kw, st, n: app('allclose', 'bool', a[0], a[1]),
    'isclose': lambda I, a, kw, st, n: app('isclose', 'bool', a[0], a[1]),
    'array_equal': lambda I, a, kw, st, n: app('array_equal', 'bool', a[0], a[1]),
    'unique': lambda I, a, kw, st, n: app('unique', ('A', 'any'), a[0]),
    'int64': lambda I, a, kw, st, n: tm.trunc(a[0]), 'int32': lambda I, a, kw, st, n: tm.trunc(
        a[0]),
    'float64': lambda I, a, kw, st, n: tm.asnum(a[0]),
    'ndim': lambda I, a, kw, st, n: num(rank(a[0])),
    'shape': lambda I, a, kw, st, n: lit('U', *shape(a[0])),
    'flip': lambda I, a, kw, st, n: seqslice(toarr(a[0]), None, None, num(-1)),
    'ravel': lambda I, a, kw, st, n: reshape(toarr(a[0]), [num(-1)]),
}


# ------------------------------------------------------------------ random
def call_random(I, d, args, kw, st, node):
    src = 'np' if d.startswith('numpy') else 'py'
    nm = d.split('.')[-1]
    fa = [I.freeze(I.seq(a, st), st) for a in args]
    if nm in ('seed',):
        I.eff('seed', [const(d)] + fa, st, node)
        return NONE
    if nm in ('default_rng', 'Random', 'RandomState', 'SystemRandom'):
        I.eff('rng', [const(d)] + fa, st, node)
        I.nalloc += 1
        st.heap[I.nalloc] = ('obj', 'rng', {})
        return mk('ref', I.nalloc)
    I.eff('random', [const(d)] + fa, st, node)
    return random_value(I, nm, args, fa, kw, st, node)


# parameters of the distributions, in the order of numpy's signatures
DIST = {'random': ('size',), 'random_sample': ('size',), 'rand': (), 'gauss': ('mu', 'sigma'),
        'uniform': ('low', 'high', 'size'), 'normal': ('loc', 'scale', 'size'),
        'standard_normal': ('size',), 'exponential': ('scale', 'size'),
        'expovariate': ('lambd',), 'binomial': ('n', 'p', 'size'), 'poisson': ('lam', 'size'),
        'bernoulli': ('p', 'size')}


def random_value(I, nm, args, fa, kw, st, node):
    if nm == 'shuffle':
        c = fa[0]
        new = app('perm', typ(c) if kind(c) else ('L', 'any'), c,
                  fresh(I, 'rnd', 'any', st))
        I.setbox(args[0], new, st)
        return NONE
    if nm in ('sample', 'permutation', 'choice', 'choices'):
        x = fa[0]
        if nm == 'permutation' and kind(x) is None:
            k = kvar(x)
            x = tab('A', x, k, k)
        size = fa[1] if len(fa) > 1 else kw.get('k', kw.get('size'))
        if nm == 'permutation' or (size is not None and size is length(x) and
                                   (nm == 'sample')):
            kd = 'A' if nm == 'permutation' else 'L'
            return box(I, app('perm', (kd, tm.elemty(typ(x))), askind(kd, x),
                              fresh(I, 'rnd', 'any', st)), st)
        if nm == 'choice' and size is None:
            return idx(x, fresh(I, 'rndint', 'int', st))
        return unk('random ' + nm)
    if nm in DIST:
        ps = list(fa)
        for x in DIST[nm][len(ps):]:
            ps.append(I.freeze(I.seq(kw[x], st), st) if x in kw else NONE)
        if len(ps) == len(DIST[nm]):
            size = ps.pop() if DIST[nm] and DIST[nm][-1] == 'size' else NONE
            dims = [] if size is NONE else list(size.a[1:]) if size.op == 'lit' else \
                None if kind(size) else [size]
            if dims is not None and not any(kind(x) for x in ps):
                c = num(I.counter('rnd:' + nm))
                ty = 'int' if nm in ('randint', 'integers', 'binomial', 'poisson') else 'num'

                def build(rest, ks):
                    if not rest:
                        return app('rnd:' + nm, ty, c, *(ps + ks + list(loopks(I))))
                    k = kvar(rest[0])
                    return tab('A', rest[0], k, build(rest[1:], ks + [k]))
                v = build(dims, [])
                return box(I, v, st) if dims else v
        return unk('random value')
    return unk('random ' + nm)


# ------------------------------------------------------------------ methods
def call_meth(I, recv, name, args, kw, st, node, rexpr):
    if recv.op == 'ite':
        d = I.D(recv, st)
        return I.onleaves(recv, st, lambda x, s: call_meth(I, x, name, args, kw, s, node, None))
    if recv.op == 'ref':
        h = st.heap.get(recv.a[0])
        if h is not None and h[0] == 'obj' and isinstance(h[1], str):
            return call_extobj(I, recv, h, name, args, kw, st, node)
    c = I.D(recv, st)
    if c.op == 'ref':
        return I.call_method(c, name, args, kw, st, node)
    if c.op == 'ite' and (name not in MUTATORS):
        return lift(lambda x: call_value_meth(I, x, name, args, kw, st, node, recv, rexpr), c) \
            or unk('method on merged value')
    return call_value_meth(I, c, name, args, kw, st, node, recv, rexpr)


MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update',
            'setdefault', 'add', 'discard', 'popitem', 'fill', 'itemset', 'resize', 'put'}


def call_value_meth(I, c, name, args, kw, st, node, recv, rexpr):
    kd = kind(c)
    f = lambda v: I.freeze(I.D(v, st), st)

    def upd(new):
        if recv.op == 'ref':
            I.setbox(recv, new, st)
        elif rexpr is not None:
            I.put(rexpr, recv, new, st)
        else:
            I.notes.append(('lost update', name, I.where(node, st)))
    if c.op == 'params':
        return NONE
    if c.op == 'dictof' and c.a[0].op == 'ref' and name in ('update', 'copy', 'items', 'keys',
                                                            'values', 'get'):
        if name == 'update':
            for a in args:
                a = I.D(a, st)
                if a.op == 'dictof' and a.a[0].op == 'ref':
                    for k, v in list(st.heap[a.a[0].a[0]][2].items()):
                        I.setattr_(c.a[0], k, v, st, node)
                else:
                    ks = I.dictkeys(a, st)
                    if ks is None or ks[0] != 'lit' or \
                            any(x.op != 's' for x in ks[1]):
                        I.notes.append(('__dict__ update', '', I.where(node, st)))
                        return unk('__dict__.update')
                    for x in ks[1]:
                        I.setattr_(c.a[0], x.a[0], I.getidx(a, x, st), st, node)
            for k, v in kw.items():
                I.setattr_(c.a[0], k, v, st, node)
            return NONE
        d = tm.mk('dict0')
        for k, v in st.heap[c.a[0].a[0]][2].items():
            d = tm.store(d, const(k), v)
        b = I.box(d, st)
        if name == 'copy':
            return b
        return call_meth(I, b, name, args, kw, st, node, None)
    if c.op == 'unk':
        if name in MUTATORS and recv.op == 'ref':
            I.setbox(recv, unk('mutated', c), st)
        return unk('method ' + name)
    if kd is None and c.op in ('idx', 'sym', 'var', 'app') and typ(c) == 'any' and \
            name in ('append', 'extend', 'pop', 'sort'):
        kd = 'L'
    if c.op == 'app' and c.a[0] == 'gvar':
        if name == 'getAttr':
            a = f(args[0])
            return gvar_attr(I, c, a.a[0] if a.op == 's' else '?', st)
        if name == 'setAttr':
            I.eff('vattr', (c,) + tuple(f(a) for a in args), st, node)
            return NONE
    if c.op == 'cref' and name == 'setAttr':
        I.eff('cattr', (c,) + tuple(f(a) for a in args), st, node)
        return NONE
    if c.op == 'params':
        return NONE
    # ---- lists
    if kd == 'L':
        if name == 'append':
            upd(cat('L', c, lit('L', args[0])))
            return NONE
        if name == 'extend':
            s = listof(I, args[0], st)
            upd(cat('L', c, askind('L', s)) if s is not None else unk('extend'))
            return NONE
        if name == 'insert':
            i = f(args[0])
            if i is ZERO:
                upd(cat('L', lit('L', args[1]), c))
            else:
                upd(cat('L', seqslice(c, None, i, None), lit('L', args[1]),
                        seqslice(c, i, None, None)))
            return NONE
        if name == 'pop':
            i = f(args[0]) if args else num(-1)
            r = idx(c, i)
            if i.op == 'n' and i.a[0] == -1:
                if c.op == 'cat' and c.a[-1].op == 'lit':
                    last = c.a[-1]
                    upd(cat('L', *c.a[1:-1], mk('lit', 'L', *last.a[1:-1])))
                else:
                    upd(seqslice(c, None, num(-1), None))
            else:
                upd(I.delat(c, i))
            return r
        if name == 'remove':
            n = length(c)
            k = kvar(n)
            upd(I.delat(c, first(n, k, eq(idx(c, k), f(args[0])))))
            return NONE
        if name == 'clear':
            upd(lit('L'))
            return NONE
        if name == 'sort':
            rev = truth(kw.get('reverse', FALSE))
            key = kw.get('key')
            if key is not None and key.op != 'none':
                upd(sortkeys(I.freeze(c, st), keyfn(I, key, c, st, node), rev is TRUE))
            else:
                upd(askind('L', tm.tsort(I.freeze(c, st), rev)))
            return NONE
        if name == 'reverse':
            upd(seqslice(c, None, None, num(-1)))
            return NONE
        if name == 'copy':
            return I.box(c, st)
        if name == 'index':
            n = length(c)
            k = kvar(n)
            return first(n, k, eq(idx(I.freeze(c, st), k), f(args[0])))
        if name == 'count':
            n = length(c)
            k = kvar(n)
            return tsum(n, k, tm.asnum(eq(idx(I.freeze(c, st), k), f(args[0]))))
    # ---- dicts
    if kd == 'D' or c.op == 'dict0':
        if name == 'items':
            return mk('items', recv)
        if name == 'values':
            return mk('values', recv)
        if name == 'keys':
            return I.aslist(c, st) or unk('keys')
        if name == 'get':
            k = f(args[0])
            d = args[1] if len(args) > 1 else NONE
            r = idx(c, k)
            if r.op == 'missing':
                return d
            return ite(mem(k, c), r, d) if mem(k, c) is not TRUE else r
        if name == 'pop':
            k = f(args[0])
            r = idx(c, k)
            upd(mk('delat', c, k) if not (c.op == 'store' and c.a[1] is k) else
                mk('delat', c.a[0], k))
            return r
        if name == 'update':
            if args:
                o = I.D(args[0], st)
                if o.op == 'dictof':
                    return unk('update')
                ks = I.dictkeys(o, st)
                if ks is not None and ks[0] == 'lit':
                    new = c
                    for k in ks[1]:
                        new = store(new, k, idx(o, k))
                    upd(new)
                elif ks is not None:
                    n, key, cond = ks
                    k = kvar(n)
                    upd(scat(c, n, k, key(k), idx(o, key(k)), cond(k) if cond else TRUE))
                else:
                    upd(unk('update'))
            for k, v in kw.items():
                upd(store(I.D(recv, st), const(k), v))
            return NONE
        if name == 'copy':
            return I.box(c, st)
        if name == 'clear':
            upd(mk('dict0'))
            return NONE
        if name == 'setdefault':
            k = f(args[0])
            new = ite(mem(k, c), c, store(c, k, args[1] if len(args) > 1 else NONE))
            upd(new)
            return idx(I.D(recv, st), k)
        if name in ('sum', 'prod', 'select'):
            # gurobi tupledict helpers
            if name == 'sum':
                n = length(c)
                k = kvar(n)
                return tsum(n, k, idx(c, k))
            if name == 'prod':
                co = f(args[0])
                n = length(c)
                k = kvar(n)
                return tsum(n, k, mul(idx(co, k), idx(c, k)))
            return I.box(askind('L', tab('L', length(c), *(lambda k: (k, idx(c, k)))(
                kvar(length(c))))), st)
    # ---- sets
    if kd == 'S':
        if name == 'add':
            upd(cat('S', c, lit('S', f(args[0]))))
            return NONE
        if name == 'update':
            s = listof(I, args[0], st)
            upd(cat('S', c, askind('S', s)) if s is not None else unk('update'))
            return NONE
        if name in ('discard', 'remove'):
            n = length(c)
            k = kvar(n)
            upd(ftab('S', n, k, nt(eq(idx(c, k), f(args[0]))), idx(c, k)))
            return NONE
        if name in ('union', 'intersection', 'difference'):
            o = {'union': 'BitOr', 'intersection': 'BitAnd', 'difference': 'Sub'}[name]
            r = I.setop(o, c, listof(I, args[0], st) or unk('set'))
            return I.box(r, st)
        if name == 'issubset':
            o = listof(I, args[0], st)
            n = length(c)
            k = kvar(n)
            return tall(n, k, mem(idx(c, k), o))
        if name == 'copy':
            return I.box(c, st)
    # ---- arrays
    if kd == 'A':
        c = I.freeze(c, st)
        if name == 'dot':
            return box(I, dot(I, c, f(args[0]), st), st)
        if name in ('sum', 'max', 'min', 'any', 'all', 'mean'):
            return call_ext(I, 'numpy.' + name, [c] + [f(a) for a in args],
                            {k: f(v) for k, v in kw.items()}, st, node)
        if name in ('argsort', 'argmax', 'argmin'):
            return box(I, NP[name](I, [c], {}, st, node), st)
        if name == 'tolist':
            return box(I, tolist(c), st)
        if name in ('copy', 'view', '__array__'):
            return I.box(c, st)
        if name in ('flatten', 'ravel'):
            return box(I, reshape(c, [num(-1)]), st)
        if name == 'astype':
            d = I.D(args[0], st)
            return box(I, astype(c, d), st)
        if name == 'reshape':
            a = args
            sh = shapeof(I, a[0], st) if len(a) == 1 else [f(x) for x in a]
            return box(I, reshape(c, sh), st)
        if name == 'sort':
            upd(askind('A', tm.tsort(c)))
            return NONE
        if name == 'round':
            return box(I, NP['round'](I, [c] + [f(a) for a in args],
                                      {k: f(v) for k, v in kw.items()}, st, node), st)
        if name == 'fill':
            upd(elemwise(lambda _: f(args[0]), c))
            return NONE
        if name == 'nonzero':
            return NP['nonzero'](I, [c], {}, st, node)
        if name == 'item':
            return idx(c, f(args[0])) if args else idx(c, ZERO)
        if name == 'transpose':
            return box(I, seqattr(I, c, 'T', st), st)
        if name == 'cumsum':
            return box(I, NP['cumsum'](I, [c], {}, st, node), st)
        if name == 'clip':
            lo, hi = f(args[0]), f(args[1])

            def cl(x):
                if lo.op != 'none':
                    x = tm.tmax(x, lo)
                if hi.op != 'none':
                    x = tm.tmin(x, hi)
                return x
            return box(I, elemwise(cl, c), st)
        if 'numpy.' + name in PY:
            r = pylib_call(I, 'numpy.' + name, [c] + args, kw, st, node)
            if r is not None:
                return r
    # ---- numbers (numpy scalars)
    if kd is None and typ(c) in ('num', 'int', 'bool'):
        if name in ('all', 'any', 'item', 'copy'):
            return c
        if name in ('sum', 'max', 'min', 'mean'):
            return tm.asnum(c)
        if name == 'astype':
            return astype(c, I.D(args[0], st))
        if name == 'tolist':
            return c
        if name == 'dot':
            return mul(c, f(args[0]))
        if name in ('addTerms', 'add', 'addConstant'):
            names = {'addTerms': ('newcoeffs', 'newvars'), 'add': ('expr', 'mult'),
                     'addConstant': ('c',)}[name]
            e = [f(x) for x in args] + [f(kw[k_]) for k_ in names if k_ in kw]
            if not e or len(e) > 2 or any(k_ not in names for k_ in kw):
                upd(unk('linear expression'))
                return NONE
            if name == 'addTerms' and len(e) == 2 and is_arr(e[0]):
                e = [_dot(toarr(e[0]), toarr(e[1]))]
            new = add(c, mul(e[0], e[1]) if len(e) == 2 else e[0])
            upd(new)
            return NONE
        if name == 'is_integer':
            return app('is_integer', 'bool', c)
    # ---- strings
    if typ(c) == 'str' or c.op == 's':
        return call_str(I, c, name, [f(a) for a in args], {k: f(v) for k, v in kw.items()},
                        st, node)
    if kd in ('U',):
        if name == 'index':
            n = length(c)
            k = kvar(n)
            return first(n, k, eq(idx(c, k), f(args[0])))
        if name == 'count':
            n = length(c)
            k = kvar(n)
            return tsum(n, k, tm.asnum(eq(idx(c, k), f(args[0]))))
    if c.op in ('range3',):
        x = I.seq(c, st)
        return call_value_meth(I, askind('L', x), name, args, kw, st, node, recv, None)
    I.notes.append(('unknown method', name + ' on ' + tm.show(c, 2)[:40], I.where(node, st)))
    if name in MUTATORS and recv.op == 'ref':
        I.setbox(recv, unk('mutated'), st)
    return unk('method ' + name)


PATHFN = ('os.path.basename', 'os.path.dirname', 'os.path.join', 'os.path.splitext',
          'os.path.split', 'os.path.normpath')


def tolist(t):
    if t.op == 'ite':
        return ite(t.a[0], tolist(t.a[1]), tolist(t.a[2]))
    if kind(t) == 'A':
        if rank(t) > 1:
            n = length(t)
            k = kvar(n)
            return tab('L', n, k, tolist(idx(t, k)))
        return askind('L', t)
    return t


def call_str(I, c, name, a, kw, st, node):
    if c.op == 'ite':
        r = lift(lambda x: call_str(I, x, name, a, kw, st, node), c)
        if r is not None:
            return r
    if name == 'format':
        return strformat(c, a, kw)
    if name == 'join':
        x = a[0]
        if x.op == 'lit':
            out = []
            for i, y in enumerate(x.a[1:]):
                if i:
                    out.append(c)
                out.append(y)
            return tm.tstrcat(*out) if out else const('')
        return app('join', 'str', c, x)
    if c.op == 's' and all(x.op == 's' for x in a):
        if name in ('replace', 'strip', 'upper', 'lower', 'lstrip', 'rstrip', 'capitalize'):
            return const(getattr(c.a[0], name)(*[x.a[0] for x in a]))
        if name in ('startswith', 'endswith'):
            return const(getattr(c.a[0], name)(*[x.a[0] for x in a]))
        if name in ('split', 'rsplit', 'partition', 'rpartition', 'splitlines'):
            return lit('L' if name[-1] != 'n' else 'U', *[
                const(x) for x in getattr(c.a[0], name)(*[y.a[0] for y in a])])
        if name in ('find', 'index', 'rfind', 'count', 'rindex') and len(a) == 1 and not kw:
            try:
                return num(getattr(c.a[0], name)(a[0].a[0]))
            except ValueError:
                return unk('str.' + name)
        if name in ('removesuffix', 'removeprefix', 'title', 'casefold') and not kw:
            return const(getattr(c.a[0], name)(*[x.a[0] for x in a]))
        if name in ('isdigit', 'isnumeric', 'isalpha') and not a:
            return TRUE if getattr(c.a[0], name)() else FALSE
    if c.op == 's' and name in ('split', 'rsplit') and len(a) == 2 and a[0].op == 's' and \
            a[1].op == 'n':
        return lit('L', *[const(x) for x in getattr(c.a[0], name)(a[0].a[0], int(a[1].a[0]))])
    if name in ('startswith', 'endswith', 'isdigit'):
        return app('str.' + name, 'bool', c, *a)
    if name in ('split', 'rsplit', 'partition', 'rpartition', 'splitlines'):
        return app('str.' + name, ('L', 'str'), c, *a)
    if name in ('find', 'index', 'count'):
        return app('str.' + name, 'int', c, *a)
    return app('str.' + name, 'str', c, *a)


def _pieces(c):
    """template text with each non-constant piece replaced by a NUL-delimited index."""
    if c.op == 's':
        return c.a[0], []
    if c.op != 'strcat':
        c_ = [c]
    else:
        c_ = c.a
    txt, dyn = '', []
    for p in c_:
        if p.op == 's':
            txt += p.a[0]
        else:
            txt += '\0%d\0' % len(dyn)
            dyn.append(p)
    return txt, dyn


def fmtspec(spec, v):
    """format `v` by a spec that is itself a term."""
    if spec.op == 's':
        return tm.fmt(spec.a[0], v)
    return mk('app', 'fmtdyn', 'str', spec, v)


def strformat(c, a, kw):
    """str.format; the template and nested specs may be assembled at run time."""
    import string
    if c.op not in ('s', 'strcat'):
        return unk('format')
    txt, dyn = _pieces(c)
    auto = [0]

    def field(fld):
        if fld == '':
            auto[0] += 1
            return a[auto[0] - 1]
        if fld.isdigit():
            return a[int(fld)]
        return kw[fld]

    def parse(s, depth):
        out = []
        for lt_, fld, spec, conv in string.Formatter().parse(s):
            if lt_:
                out += _undyn(lt_, dyn)
            if fld is not None:
                if conv not in (None, '', 's') or depth > 1:
                    raise ValueError
                v = field(fld)
                out.append(fmtspec(parse(spec or '', depth + 1), v))
        return tm.tstrcat(*out) if out else const('')
    try:
        return parse(txt, 0)
    except (ValueError, IndexError, KeyError):
        return unk('format')


def strpercent(c, v):
    """printf-style formatting; anything not understood is unknown."""
    import re
    if c.op not in ('s', 'strcat'):
        return unk('pct')
    txt, dyn = _pieces(c)
    if v.op == 'lit' and v.a[0] == 'U':
        args = list(v.a[1:])
    elif kind(v) is None:
        args = [v]
    else:
        return unk('pct')
    out, pos = [], 0
    rx = re.compile('%(%|(\0\\d+\0|[-+ 0#]*\\d*)((?:\\.(?:\\d+|\\*|\0\\d+\0))?)([a-zA-Z]))')
    while True:
        k = txt.find('%', pos)
        if k < 0:
            out += _undyn(txt[pos:], dyn)
            break
        out += _undyn(txt[pos:k], dyn)
        m = rx.match(txt, k)
        if not m:
            return unk('pct')
        pos = m.end()
        if m.group(1) == '%':
            out.append(const('%'))
            continue
        width, prec, t = m.group(2), m.group(3), m.group(4)
        star = None
        if prec == '.*':
            if not args:
                return unk('pct')
            star = args.pop(0)
        if not args:
            return unk('pct')
        x = args.pop(0)
        if width:
            return unk('pct')
        if t in ('d', 'i') and not prec and (
                typ(x) not in ('num', 'str', 'bool') or
                x.op == 'n' and x.a[0].denominator == 1):
            out.append(tm.tostr(x))
        elif t == 's' and not prec:
            out.append(tm.tostr(x))
        elif t in 'fFeEgG':
            if not prec:
                prec = '.6'
            spec = [const('.'), tm.fmt('', star)] if star is not None else \
                [tm.fmt('', p) if typ(p) != 'str' else p for p in _undyn(prec, dyn)]
            out.append(fmtspec(tm.tstrcat(*(spec + [const(t)])), x))
        else:
            return unk('pct')
    if args:
        return unk('pct')
    return tm.tstrcat(*out) if out else const('')


def _undyn(s, dyn):
    out = []
    for i, p in enumerate(s.split('\0')):
        if i % 2:
            out.append(dyn[int(p)])
        elif p:
            out.append(const(p))
    return out


def call_extobj(I, recv, h, name, args, kw, st, node):
    cls = h[1]
    if cls == 'gp.Model':
        return grb_method(I, recv, name, args, kw, st, node)
    if cls == 'csv.writer':
        p = h[2]['$path']
        if name == 'writerow':
            I.eff('csvrow', (p, fz(I, args[0], st)), st, node)
            return NONE
        if name == 'writerows':
            t = fz(I, args[0], st)
            if t.op == 'lit':
                for x in t.a[1:]:
                    I.eff('csvrow', (p, x), st, node)
            elif kind(t) is None:
                I.eff('csvrow', (p, unk('rows')), st, node)
            else:
                n = length(t)
                k = kvar(n)
                I.trace.append(_eff('csvrow', (p, idx(t, k)), st.g, I.where(node, st),
                                    [(k, n)]))
            return NONE
    if cls == 'file':
        if name in ('write', 'writelines'):
            I.eff('fwrite', (h[2]['$path'], fz(I, args[0], st)), st, node)
        return NONE if name in ('write', 'close', 'flush', 'writelines') else unk('file.' + name)
    if cls == 'rng':
        fa = [I.freeze(I.seq(a, st), st) for a in args]
        I.eff('random', [const('rng.' + name)] + fa, st, node)
        return random_value(I, name, args, fa, kw, st, node)
    I.notes.append(('unknown method', cls + '.' + name, I.where(node, st)))
    return unk(cls + '.' + name)


def call_symmeth(I, recv, f, name, args, kw, st, node):
    """method of an opaque object: recorded, result uninterpreted in its arguments."""
    for key in ('%s.%s' % (f.cls.name, name) if f.cls else name, name):
        h = I.stubs.get(key)
        if h is not None:
            env, _ = I.bindargs(f, [recv] + list(args), kw, st, node)
            return h(I, f, env, st, node)
    if f.cls is not None and f.kind == 'staticmethod':
        env, _ = I.bindargs(f, list(args), kw, st, node)
    else:
        env, _ = I.bindargs(f, [recv] + list(args), kw, st, node)
    names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
    fa = [I.freeze(I.D(env[a], st), st) for a in names[0 if f.kind == 'staticmethod' else 1:]
          if a in env]
    if name in getattr(I, 'recorded', ()):
        I.eff('call:' + name, [recv] + fa, st, node)
    return app('m:' + name, getattr(I, 'methtypes', {}).get(name, 'any'), recv, *fa)


def recorder(name, result=None, params=None):
    """stub handler: record the call with its arguments by parameter order; the result is a
    fresh opaque value (or result(I, env, st))."""
    def h(I, f, env, st, node):
        names = params or [a.arg for a in f.node.args.posonlyargs + f.node.args.args +
                           f.node.args.kwonlyargs]
        fa = [I.freeze(I.D(env[a], st), st) for a in names if a in env and a != 'self']
        I.eff('call:' + name, fa, st, node)
        if result is not None:
            return result(I, env, st)
        return fresh(I, name, 'any', st)
    return h
