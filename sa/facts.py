"""Symbolic problem data shared by the rules."""
import os
from . import terms as tm
from .interp import Interp, State, Frame, Dead, Limit
from .pyfront import Program, Class, Func
from .terms import (mk, sym, var, num, const, tab, idx, app, TRUE, FALSE, NONE, subst, kind,
                    length, unk)

# SA_SHAPE="N,m,n": the same rules over all data of one fixed problem shape
SHAPE = [int(x) for x in os.environ.get('SA_SHAPE', '').split(',') if x]
N, M, NV = [tm.num(x) for x in SHAPE] if SHAPE else (
    sym('N', 'int'), sym('m', 'int'), sym('n', 'int'))
EPS = sym('eps', 'num')
CONT = sym('cont', 'bool')
A1 = ('A', 'num')
AA = sym('A', ('A', ('A', A1)), (N, M, NV))
BB = sym('b', ('A', A1), (N, M))
CC = sym('c', A1, (NV,))
PR = sym('proba', A1, (N,))
FILE = sym('file', 'str')


if not SHAPE:
    tm.POS |= {N, M, NV}


class Anchor(Exception):
    """a public entry point the property is anchored at does not exist (any more)."""


def kv(n, name='k'):
    k = var(name, 'int')
    tm.UPPER[k] = n
    return k


def cls(prog, name):
    c = prog.find_class(name)
    if c is None:
        raise Anchor('class ' + name)
    return c


def method(prog, c, name):
    f = prog.method(c, name)
    if f is None:
        raise Anchor('%s.%s' % (c.name, name))
    return f


class Ctx:
    """One abstract run: interpreter, state and the symbolic CCLP instance."""

    def __init__(self, prog, stubs=None, uniform=False):
        self.prog = prog
        self.I = Interp(prog, stubs or {})
        self.uniform = uniform
        self.st = self.I.fresh_state(next(iter(prog.modules.values())))
        self._inst = None

    # -------------------------------------------------------------- calls
    def new(self, cname, *args, **kw):
        c = cls(self.prog, cname)
        return self.I.instantiate(c, list(args), kw, self.st, None)

    def call(self, obj, name, *args, **kw):
        return self.I.call_method(obj, name, list(args), kw, self.st, None)

    def field(self, obj, name):
        return self.st.heap[obj.a[0]][2].get(name)

    def fields(self, obj):
        return self.st.heap[obj.a[0]][2]

    def setfield(self, obj, name, v):
        h = self.st.heap[obj.a[0]]
        fl = dict(h[2])
        fl[name] = v
        self.st.heap[obj.a[0]] = ('obj', h[1], fl)

    def fz(self, v):
        return self.I.freeze(v, self.st)

    def box(self, v):
        return self.I.box(v, self.st)

    @property
    def trace(self):
        return self.I.trace

    # -------------------------------------------------------------- instance
    def raw_instance(self):
        return self.new('ChanceKnapInstance', FILE, CONT, EPS)

    def instance(self):
        if self._inst is not None:
            return self._inst
        o = self.raw_instance()
        del self.I.trace[:]
        vals = {
            'get_nb_vars': NV, 'get_nb_scenarios': N,
            'get_vector_c': CC, 'get_matrices_A': AA, 'get_vectors_b': BB,
            'get_epsilon': EPS,
        }
        if not self.uniform:
            vals['get_proba'] = PR
        m = {}
        for g, s in vals.items():
            t = self.fz(self.call(o, g))
            if t.op not in ('sym', 'n', 'b') and not t.unk:
                m[t] = s
        fl = dict(self.fields(o))
        # number of constraints: read from the header
        k = kv(N)
        t = self.fz(self.call(o, 'get_nb_constraints', k))
        out = {}
        for f, v in fl.items():
            t2 = self.fz(v)
            out[f] = t2
        mm = dict(m)
        if t.op not in ('sym', 'n', 'b', 'unk') and k not in t.fv:
            mm[t] = M
        self.rawmap = mm
        order = sorted(mm.items(), key=lambda p: -_size(p[0]))
        for f, t2 in out.items():
            for a, s in order:
                t2 = replace(t2, a, s)
            out[f] = t2
        for f, t2 in out.items():
            if kind(t2) in ('L', 'A', 'D'):
                t2 = self.I.box(t2, self.st)
            out[f] = t2
        self.st.heap[o.a[0]] = ('obj', self.st.heap[o.a[0]][1], out)
        self._inst = o
        return o

    def partition_instance(self, partition=None, load=True):
        """PartitionChanceKnapInstance loaded with a symbolic partition."""
        o = self.new('PartitionChanceKnapInstance', self.instance())
        return o


def _size(t):
    return sum(1 for _ in tm.walk(t))


def replace(t, a, s):
    return tm.mapterm(t, lambda x: s if x is a else x)
