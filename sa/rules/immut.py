"""C22: solving never changes the instance."""
from .common import *
from ..alias import Alias
from . import native
from .. import cfront

DATA = {'vector_c': 1, 'matrices_A': 3, 'vectors_b': 2, 'proba': 1, 'nb_constraints': 1,
        'var_type': 1, 'var_lb': 1, 'var_ub': 1, 'proba_part': 1, 'nb_constraints_part': 1}
SCAL = {'epsilon': 0, 'nb_vars': 0, 'nb_scenarios': 0, 'epsilon_part': 0, 'nb_subsets': 0,
        'partition': 0}
OWN = {'proba_part', 'nb_constraints_part', 'epsilon_part', 'nb_subsets', 'partition'}
TABLES = {('BigMFinder', 'song_violations'): 3}
GETTERS = ('get_vector_c', 'get_matrices_A', 'get_matrix_A', 'get_vectors_b', 'get_vector_b',
           'get_proba', 'get_var_lb')


def analysis(prog):
    inst, part = [prog.find_class(x) for x in ('ChanceKnapInstance',
                                               'PartitionChanceKnapInstance')]
    a = Alias(prog, DATA, SCAL, inst, part, OWN, TABLES)
    main = prog.modules.get('main')
    done = a.run([main], 'src') if main is not None else False
    return a, done, inst


@rule('C22', 'instance-never-written')
def c22_views(rep):
    a, done, inst = analysis(rep.prog)
    if inst is None or not done or len(a.visited) < 60:
        return rep.und('instance-never-written', 'main.py', 'the analysis did not finish')
    got = {g: a.prog.method(inst, g) for g in GETTERS}
    lost = [g for g, m in got.items() if m is not None and not any(
        x[0] == 'd' for k, v in a.memo.items() if k[0] is m for x in v) and any(
        k[0] is m for k in a.memo)]
    if lost:
        rep.und('instance-never-written', 'src/instance',
                'no data field recognised behind %s' % ', '.join(lost))
    for (path, line, q, what, field), sure in sorted(a.sinks.items()):
        rep.add('instance-never-written', 'bad' if sure else 'undecided',
                rep.loc((path, line, q)), '%s changes the data of the instance (%s)' % (
                    what, field))
    byf = {}
    for p, ln, e in a.exposed:
        byf.setdefault(p, set()).add((ln, e))
    hit = {}
    for p, ln, w in a.nsinks:
        hit.setdefault(p, set()).add((ln, w))
    for p in sorted(set(byf) | set(hit)):
        rep.sites += len(hit.get(p, ()))
        if not any(k[0] == p for k in a.sinks):
            rep.ok('instance-never-written', rep.prog.rel(p), '%d views, %d writes' % (
                len(byf.get(p, ())), len(hit.get(p, ()))))
    rep.visited |= {q for _, q in a.visited}


@rule('C22', 'kernel-reads-only')
def c22_kernel(rep):
    """the native routine leaves the two input arrays as they are."""
    prog = Program(rep.prog.root)
    try:
        mods, entry = native.translate(prog)
    except cfront.Unsupported as e:
        return rep.und('kernel-reads-only', 'violations.h', 'not analysable: %s' % e)
    a = Alias(prog, {}, {}, None, None, (), {})
    kernels = {}

    def caddr(args, kws, e, env):
        return frozenset([('t', tuple(args))])

    def kernel(f):
        def h(args, kws, e, env):
            out = []
            for v in args:
                t = [x for x in v if x[0] == 't']
                if t:
                    out += [frozenset(('d', x[1], 1, x[3]) if x[0] == 'd' else x
                                      for x in t[0][1][0]), frozenset([('n',)])]
                else:
                    out.append(v)
            kernels[f.qual] = out
            return a.call(f, out, {}, e)
        return h

    def inplace(args, kws, e, env):
        a.sink(args[0], e, 'sorted in place')
        return frozenset()
    a.hooks = {'caddr': caddr, 'vsort': inplace, 'crange': lambda *x: a.external('range', *x[:4])}
    for fn, m in mods.items():
        a.hooks[fn] = kernel(m.defs[fn])
    for fn in list(mods) + ['caddr']:
        entry.mod.defs[fn] = ('import', 'vkernel', fn)
    arr = [frozenset([('d', 'the matrix', 3, True)]),
           frozenset([('d', 'the right-hand side', 2, True)])]
    done = a.run([], None, lambda: a.call(entry, arr, {}, entry.node), entry.mod)
    if not done or not kernels or not any(x[0] == 'd' for v in kernels.values() for y in v
                                          for x in y):
        return rep.und('kernel-reads-only', 'violations.pyx', 'inputs not followed')
    rep.sites += len(a.nsinks)
    for (path, line, q, what, field), sure in sorted(a.sinks.items()):
        rep.add('kernel-reads-only', 'bad' if sure else 'undecided', rep.loc((path, line, q)),
                '%s changes %s of the instance' % (what, field))
    if not a.sinks:
        rep.ok('kernel-reads-only', 'violations.h', '%d functions, %d writes' % (
            len(a.visited), len(a.nsinks)))


@rule('C14', 'table-never-written')
def c14_table(rep):
    """nothing writes into the stored table of violations once it is computed."""
    a, done, inst = analysis(rep.prog)
    if inst is None or not done or len(a.visited) < 60:
        return rep.und('table-never-written', 'main.py', 'the analysis did not finish')
    hit = False
    for (path, line, q, what, field), sure in sorted(a.sinks.items()):
        if str(field) in [f for _, f in TABLES]:
            hit = True
            rep.add('table-never-written', 'bad' if sure else 'undecided',
                    rep.loc((path, line, q)), '%s changes the stored violations' % what)
    if not hit:
        rep.ok('table-never-written', 'src/BigMFinder.py', '%d writes examined' % len(a.nsinks))
    rep.sites += len(a.nsinks)
