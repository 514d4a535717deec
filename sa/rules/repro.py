"""C27: the random choices of an experiment are reproducible."""
import ast
import os
import re
from .common import *
from .adaptive import bool3
from .results import run_main
from ..interp import Dead

# functions of Python's seeded module-level generator
PYRANDOM = {'random', 'sample', 'shuffle', 'choice', 'choices', 'randint', 'randrange', 'uniform',
            'gauss', 'normalvariate', 'expovariate', 'triangular', 'betavariate', 'getrandbits',
            'gammavariate', 'lognormvariate', 'paretovariate', 'weibullvariate',
            'vonmisesvariate', 'randbytes', 'binomialvariate', 'getstate'}
ENTROPY = ('os.urandom', 'os.getrandom', 'random.SystemRandom', 'secrets', 'uuid.uuid1',
           'uuid.uuid4', 'os.getpid')
NPGEN = ('numpy.random.default_rng', 'numpy.random.RandomState', 'numpy.random.Generator',
         'numpy.random.SeedSequence', 'numpy.random.PCG64', 'numpy.random.MT19937')


def modules(prog):
    return [m for m in sorted(prog.modules.values(), key=lambda m: m.name)
            if m.name == 'main' or m.name.startswith('src.') and
            not m.name.startswith('src.export')]


def names_of(mod):
    """external name bound by each import of the module, at any level."""
    out = {}
    for x in ast.walk(mod.tree):
        if isinstance(x, ast.Import):
            for a in x.names:
                out[a.asname or a.name.split('.')[0]] = a.name if a.asname else \
                    a.name.split('.')[0]
        elif isinstance(x, ast.ImportFrom) and x.module and not x.level:
            for a in x.names:
                out[a.asname or a.name] = x.module + '.' + a.name
    return out


def dotted(e, names):
    """external dotted name of an expression, or None."""
    path = []
    while isinstance(e, ast.Attribute):
        path.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name) or e.id not in names:
        return None
    return '.'.join([names[e.id]] + path[::-1])


def constant(mod, e, depth=0):
    """does the expression denote the same value in every run?  None: unknown."""
    if isinstance(e, ast.Constant):
        return e.value is not None
    if isinstance(e, ast.Name) and depth < 5:
        d = mod.defs.get(e.id)
        if d is not None and isinstance(d, tuple) and d[0] == 'assign':
            return constant(mod, d[1], depth + 1)
        return None
    if isinstance(e, ast.UnaryOp):
        return constant(mod, e.operand, depth)
    if isinstance(e, ast.BinOp):
        a, b = constant(mod, e.left, depth), constant(mod, e.right, depth)
        return True if a and b else False if False in (a, b) else None
    if isinstance(e, ast.Call):
        d = dotted(e.func, names_of(mod)) or ''
        if d.split('.')[0] in ('time', 'datetime', 'secrets', 'uuid') or d in ENTROPY:
            return False
        if isinstance(e.func, ast.Name) and e.func.id == 'id':
            return False
        if isinstance(e.func, ast.Name) and e.func.id in ('int', 'abs', 'float') and e.args:
            return constant(mod, e.args[0], depth)
    return None


def toplevel(tree):
    """expressions run when the module is imported."""
    st = list(tree.body)
    while st:
        x = st.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
            st += list(getattr(x, 'decorator_list', [])) + list(x.args.defaults)
            continue
        st += list(ast.iter_child_nodes(x))


@rule('C27', 'sources')
def c27_sources(rep):
    """every random draw comes from the generator the command line seeds."""
    nuse = 0
    for m in modules(rep.prog):
        names = names_of(m)
        top = set()
        for x in toplevel(m.tree):
            if isinstance(x, ast.Call):
                top.add(x)
        inner = {id(x.value) for x in ast.walk(m.tree) if isinstance(x, ast.Attribute)}
        called = {id(x.func): x for x in ast.walk(m.tree) if isinstance(x, ast.Call)}
        for x in ast.walk(m.tree):
            if not isinstance(x, (ast.Attribute, ast.Name)) or id(x) in inner:
                continue
            d = dotted(x, names)
            if d is None:
                continue
            site = (m.path, x.lineno, m.name)
            c = called.get(id(x))
            if any(d == e or d.startswith(e + '.') for e in ENTROPY):
                rep.bad('seeded-source', site, '%s differs in every run' % d)
                continue
            if d.startswith('numpy.random'):
                nuse += 1
                rep.sites += 1
                if d in ('numpy.random', 'numpy.random.seed') or d.startswith(NPGEN):
                    if c is None:
                        if d not in ('numpy.random',):
                            rep.und('seeded-source', site, '%s is used here' % d)
                        continue
                    a = list(c.args) + [k.value for k in c.keywords]
                    ok = False if not a else constant(m, a[0])
                    rep.holds('seeded-source', ok, site,
                              '%s is called with %s' % (d, ast.unparse(a[0]) if a else 'no seed'))
                else:
                    rep.holds('seeded-source', True if numpy_seeded(rep.prog) else False, site,
                              'nothing seeds the generator of %s' % d)
                continue
            if d == 'random' or d.startswith('random.'):
                nm = d[7:]
                rep.sites += 1
                if nm in PYRANDOM:
                    nuse += 1
                    if c in top and m.name != 'main':
                        rep.bad('drawn-after-the-seed', site,
                                '%s is drawn when the module is imported, before the seed' % d)
                    else:
                        rep.ok('seeded-source', site, d)
                elif nm == 'Random':
                    nuse += 1
                    a = list(c.args) + [k.value for k in c.keywords] if c is not None else None
                    rep.holds('seeded-source', None if a is None else False if not a else
                              constant(m, a[0]), site, 'a generator of its own without a seed')
                elif nm == 'seed':
                    if m.name == 'main':
                        continue
                    a = list(c.args) + [k.value for k in c.keywords] if c is not None else None
                    rep.holds('seed-is-kept', None if a is None else False if not a else
                              None if constant(m, a[0]) else constant(m, a[0]), site,
                              'the generator is seeded again')
                elif nm == 'setstate':
                    rep.und('seed-is-kept', site, 'the state of the generator is changed')
                else:
                    rep.und('seeded-source', site, d)
    rep.ok('seeded-source', 'src', '%d uses of random generators in %d modules' % (
        nuse, len(modules(rep.prog))))


def numpy_seeded(prog):
    m = prog.modules.get('main')
    if m is None:
        return False
    names = names_of(m)
    return any(isinstance(x, ast.Call) and dotted(x.func, names) == 'numpy.random.seed' and
               x.args and constant(m, x.args[0]) for x in toplevel(m.tree))


@rule('C27', 'order')
def c27_order(rep):
    """no choice depends on an order that differs between runs."""
    n = 0
    for m in modules(rep.prog):
        names = names_of(m)
        par = {}
        for x in ast.walk(m.tree):
            for y in ast.iter_child_nodes(x):
                par[y] = x
        for x in ast.walk(m.tree):
            if not isinstance(x, ast.Call):
                continue
            n += 1
            d = dotted(x.func, names) or ''
            site = (m.path, x.lineno, m.name)
            if d in ('os.listdir', 'os.scandir', 'os.walk', 'glob.glob', 'glob.iglob') or \
                    isinstance(x.func, ast.Attribute) and x.func.attr in ('iterdir', 'rglob'):
                p = par.get(x)
                if not (isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and
                        p.func.id in ('sorted', 'len', 'set')):
                    rep.und('order-of-files', site, 'files in the order of the directory')
            elif isinstance(x.func, ast.Name) and x.func.id in ('hash', 'id') and \
                    x.func.id not in m.defs:
                rep.holds('order-of-hashes', None, site, '%s of an object' % x.func.id)
            elif d.split('.')[0] in ('threading', 'multiprocessing', 'concurrent', 'asyncio'):
                rep.und('order-of-threads', site, d)
        for x in ast.walk(m.tree):
            its = [x.iter] if isinstance(x, (ast.For, ast.comprehension)) else []
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in (
                    'list', 'tuple', 'enumerate', 'zip'):
                its = x.args
            for it in its:
                if isinstance(it, ast.Set) and any(
                        isinstance(e, ast.Constant) and isinstance(e.value, str)
                        for e in it.elts) and len(it.elts) > 1:
                    rep.bad('order-of-hashes', (m.path, it.lineno, m.name),
                            'the order of a set of strings differs between runs')
    rep.ok('order-of-hashes', 'src', '%d calls searched' % n)


@rule('C27', 'native-sources')
def c27_native(rep):
    p = os.path.join(rep.prog.root, 'violations.pyx')
    try:
        s = open(p, encoding='utf-8').read()
    except OSError:
        raise Anchor('violations.pyx')
    s = re.sub(r'#.*|"""(.|\n)*?"""', '', s)
    m = re.search(r'\b(rand|srand|random|rand_r|drand48|random_device|prange|time)\s*\(', s) or \
        re.search(r'\bimport\s+random\b|\brand\b', s)
    rep.holds('native-deterministic', None if m else True, (p, 1, 'violations.pyx'),
              m.group(0) if m else '')


@rule('C27', 'seed')
def c27_seed(rep):
    for meth in (3, 4):
        tag = 'method-%d-' % meth
        ctx, eff, o, site = run_main(rep.prog, meth, 0)
        rep.use(ctx)
        rep.sites += len(eff)
        seeds = [i for i, e in enumerate(eff) if e.kind == 'seed' and
                 e.args[0].a[0] == 'random.seed']
        if not seeds:
            odd = any(e.kind in ('rng',) or 'random' in e.kind for e in eff)
            rep.holds(tag + 'seeded', None if odd or meth == 4 else False, site,
                      'the random generator is not seeded')
            continue
        first = eff[seeds[0]]
        rep.holds(tag + 'seeded-always', bool3(first.g is TRUE and not first.qs, first.g),
                  first.site, 'the generator is seeded only if %s' % tm.show(first.g))
        for i in seeds:
            e = eff[i]
            a = e.args[1] if len(e.args) > 1 else NONE
            ok = None
            if a is NONE:
                ok = False
            elif a.op in ('n', 's') or a.op == 'b':
                ok = True
            else:
                apps_ = [x for x in tm.walk(a) if x.op == 'app']
                syms = [x for x in tm.walk(a) if x.op == 'sym']
                if any(re.match(r'(time|clock|now|datetime|os\.getpid|os\.urandom|rnd|hash|id)\b',
                                str(x.a[0])) for x in apps_ + syms) or varies(a):
                    ok = False
                elif not is_soft(a) and not [x for x in apps_ if not str(x.a[0]) in (
                        'int', 'float', 'str')]:
                    ok = True
            rep.holds(tag + 'seed-constant', ok, e.site, 'the seed is %s' % tm.show(a, 4))
        early = [e for e in eff[:seeds[0]] if e.kind == 'random' or
                 e.kind.startswith('call:solve')]
        rep.holds(tag + 'seed-first', not early, early[0].site if early else first.site,
                  'used before the generator is seeded')
        use = [i for i, e in enumerate(eff) if e.kind.startswith('call:solve')]
        late = [i for i in seeds if use and i > use[0]]
        rep.holds(tag + 'seed-before-the-method', bool(use) and not late or None,
                  first.site)


def varies(a):
    return any(x.op == 'unk' and re.search(r'\b(time|clock|getpid|urandom|datetime|hash)\b',
                                           ' '.join(str(y) for y in x.a))
               for x in tm.walk(a))
