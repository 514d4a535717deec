"""Registry: property id -> list of (rule name, function)."""
import importlib

MODULES = ['models', 'bounds', 'adaptive', 'refine', 'bigm', 'native', 'run', 'results', 'interrupt',
           'files', 'repro', 'cache', 'immut', 'costs']
REG = {}


class Spec:
    def __init__(self):
        self.rules = []
        self.level = 'other'
        self.explain = ''
        self.assumptions = []
        self.timeout = 240
        self.shapes = True


def rule(prop, name):
    def deco(fn):
        REG.setdefault(prop, Spec()).rules.append((name, fn))
        return fn
    return deco


def about(prop, explain, *assumptions):
    s = REG.setdefault(prop, Spec())
    s.explain = explain
    s.assumptions = list(assumptions)


def get(prop):
    for m in MODULES:
        importlib.import_module('sa.rules.' + m)
    return REG[prop]


def all_props():
    for m in MODULES:
        importlib.import_module('sa.rules.' + m)
    return sorted(REG)
