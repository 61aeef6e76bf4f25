"""The properties: each is a list of cases (harness + bounds) for the engine."""
import importlib
import os

PROPS = {}


class Spec(object):
    def __init__(self, pid, cases, modules, total_s=75, thorough_s=600, thorough_scale=6, assumptions=()):
        self.pid = pid
        self.cases = cases
        self.modules = modules
        self.total_s = total_s
        self.thorough_s = thorough_s
        self.thorough_scale = thorough_scale
        self.assumptions = list(assumptions) + COMMON


COMMON = [
    'arithmetic is exact: real (or complex) numbers stand for floating point; rounding and overflow are outside the claim',
    'numpy, math and the numeric builtins are modelled by engine/shimnp.py and engine/loader.py (cross-validated against the real run on each case)',
    'the Python 2 source is translated by lib2to3 as in the project build',
]


def prop(pid, modules, **kw):
    def deco(fn):
        PROPS[pid] = Spec(pid, fn, modules, **kw)
        return fn
    return deco


here = os.path.dirname(os.path.abspath(__file__))
for n in sorted(os.listdir(here)):
    if n.endswith('.py') and not n.startswith('_'):
        importlib.import_module('props.' + n[:-3])
