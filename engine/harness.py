"""The interface a harness is written against, in two modes.

Sym   the code under test is executed symbolically; claims become solver queries.
Real  the code under test runs as built, on real numpy, from concrete inputs; claims
      are evaluated (this is the replay of a counterexample, and the cross-validation
      of the encoder)."""
import builtins
import importlib
import sys
from fractions import Fraction

import numpy as rnp

import poly
import sym
import shimnp
import loader
from explore import Pinned
from poly import Poly, ZERO
from sym import S, Ite, SymBool, lift, fof, mkbool, f_and, f_or, f_not, PYF, PYI, PYC, rel
from shimnp import SymArray


class Skip(BaseException):
    "The concrete inputs do not meet an assumption."


class Stop(BaseException):
    "The harness ends this path here (stated bound)."


DT = {'d': 'float64', 'f': 'float32', 'D': 'complex128', 'F': 'complex64', 'i': 'int64', 'b': 'bool'}


class Base(object):
    def option(self, name, options):
        return options[self.choose_index(name, len(options))]

    def unwrap(self, x):
        return x

    def raises(self, label, exc, fn):
        "fn() must raise one of exc"
        try:
            fn()
        except exc:
            self.claim(label, True)
            return
        self.claim(label, False)

    def spd(self, name, n, dtype='d', diag_pos=True):
        "L L^H with arbitrary L, positive diagonal: every positive definite matrix"
        np = self.np
        L = self.zeros((n, n), dtype)
        for i in range(n):
            for j in range(i):
                L[i, j] = self.scalar('%s_L%d%d' % (name, i, j), dtype)
            L[i, i] = self.real('%s_L%d%d' % (name, i, i), sign='+')
        return np.dot(L, L.T if dtype != 'D' else L.T.conj())

    def mat(self, name, m, n, dtype='d', kind='full', nz=False):
        np = self.np
        A = self.zeros((m, n), dtype)
        for i in range(m):
            for j in range(n):
                if kind == 'sym' or kind == 'herm':
                    if j > i:
                        continue
                    if i == j and kind == 'herm':
                        A[i, i] = self.real('%s%d%d' % (name, i, i))
                        continue
                    v = self.scalar('%s%d%d' % (name, i, j), dtype)
                    A[i, j] = v
                    A[j, i] = v if kind == 'sym' else v.conjugate()
                elif kind == 'tri':          # symmetric tridiagonal, positive off-diagonal
                    if j == i:
                        A[i, i] = self.real('%s%d%d' % (name, i, i))
                    elif j == i - 1:
                        A[i, j] = A[j, i] = self.real('%s%d%d' % (name, i, j), sign='+')
                elif kind == 'lbidiag':      # lower bidiagonal, positive entries
                    if j == i or j == i - 1:
                        A[i, j] = self.real('%s%d%d' % (name, i, j), sign='+')
                elif kind == 'hess':
                    if j > i - 1:
                        A[i, j] = self.real('%s%d%d' % (name, i, j))
                    elif j == i - 1:
                        A[i, j] = self.real('%s%d%d' % (name, i, j), sign='+')
                elif kind == 'diag':
                    if i == j:
                        A[i, j] = self.scalar('%s%d%d' % (name, i, j), dtype, nz=nz)
                elif kind == 'lower':
                    if j <= i:
                        A[i, j] = self.scalar('%s%d%d' % (name, i, j), dtype, nz=nz)
                else:
                    A[i, j] = self.scalar('%s%d%d' % (name, i, j), dtype, nz=nz)
        return A

    def vec(self, name, n, dtype='d', nz=False, sign=None):
        v = self.zeros(n, dtype)
        for i in range(n):
            v[i] = self.scalar('%s%d' % (name, i), dtype, nz=nz, sign=sign)
        return v

    def scalar(self, name, dtype='d', **k):
        "a Python number of the given type"
        if dtype in 'df':
            return self.real(name, **k)
        if dtype in 'DF':
            k.pop('sign', None)
            k.pop('nz', None)
            return self.cplx(self.real(name + 'r', **k), self.real(name + 'i', **k))
        return self.int(name, -8, 8, **k)

    def zeros(self, shape, dtype='d'):
        return self.np.zeros(shape, dtype=DT[dtype])

    def identity(self, n):
        return self.np.eye(n)

    def implies(self, label, a, b):
        self.claim(label, self.or_(self.not_(a), b))

    def dense(self, op, dtype=None):
        "the matrix of an operator, column by column, through its * on float vectors"
        m, n = op.shape
        np = self.np
        A = np.zeros((m, n), dtype=DT[dtype] if dtype else 'complex128')
        for j in range(n):
            e = np.zeros(n)
            e[j] = 1.0
            A[:, j] = op * e
        return A


def nums(x):
    "flat list of S / plain of a value (array, scalar, list)"
    if isinstance(x, SymArray):
        return [y for y in x.a.ravel().tolist()]
    if isinstance(x, rnp.ndarray):
        return x.ravel().tolist()
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out += nums(y)
        return out
    return [x]


def shape_of(x):
    if isinstance(x, (SymArray, rnp.ndarray)):
        return x.shape
    if isinstance(x, (list, tuple)):
        return (len(x),) + (shape_of(x[0]) if x else ())
    return ()


PROVED = {}


class Sym(Base):
    mode = 'sym'

    def proved(self, key):
        return not isinstance(self.ctx, Pinned) and PROVED.get(key, (False,))[0]

    def __init__(self, ctx, ldr):
        self.ctx = ctx
        self.ldr = ldr
        self.np = shimnp.NUMPY
        self.record = []          # (label, list of numbers) for cross-validation

    def mod(self, name):
        return self.ldr.load(name)

    def external(self, name, **attrs):
        "stands in for a library that is not installed"
        loader.external(name, **attrs)

    def real(self, name, sign=None, nz=False, lo=None, hi=None):
        return S(self.ctx.var(name, sign, nz, lo, hi), None, PYF)

    def int(self, name, lo, hi, **k):
        p = self.ctx.var(name, None, False, lo, hi, is_int=True)
        if lo == hi:
            return lo
        return S(p, None, PYI)

    def cplx(self, re, im):
        return S(lift(re).re, lift(im).re, PYC)

    def npscalar(self, x, dtype):
        return sym.cast(lift(x), rnp.dtype(DT[dtype]))

    def const(self, x):
        "exact rational constant"
        return S(Poly.const(Fraction(x)), None, PYF)

    def array(self, xs, dtype='d'):
        return shimnp.build(xs, rnp.dtype(DT[dtype]))

    def choose_index(self, name, n):
        return self.ctx.choose(name, n)

    def decide(self, c):
        return self.ctx.decide(fof(c))

    def and_(self, *a):
        return mkbool(f_and(*[fof(x) for x in a]))

    def or_(self, *a):
        return mkbool(f_or(*[fof(x) for x in a]))

    def not_(self, a):
        return mkbool(f_not(fof(a)))

    def le(self, a, b):
        return lift(a) <= lift(b)

    def isnum(self, x):
        return isinstance(x, S) or isinstance(x, (int, float, complex, rnp.generic))

    def assume(self, c):
        self.ctx.assume(c)

    def sqrt(self, x):
        return sym.s_sqrt(lift(x))

    def max(self, a, b):
        return sym.merge_max(lift(a), lift(b))

    def min(self, a, b):
        return sym.merge_min(lift(a), lift(b))

    def claim(self, label, c):
        self.ctx.prove(label, c if isinstance(c, (SymBool, Ite)) else bool(c))

    def note(self, label, *xs):
        if len(self.ctx.trace) >= 0:
            self.record.append((label, [y for x in xs for y in nums(x)]))

    def eq(self, label, a, b, sh=True):
        if sh and shape_of(a) != shape_of(b):
            self.ctx.prove(label + ' [shape %s vs %s]' % (shape_of(a), shape_of(b)), False)
            return
        xs, ys = nums(a), nums(b)
        if len(xs) != len(ys):
            if len(xs) == 1:
                xs = xs * len(ys)
            elif len(ys) == 1:
                ys = ys * len(xs)
            else:
                self.ctx.prove(label + ' [size]', False)
                return
        self.note(label, a)
        pairs = []
        for x, y in zip(xs, ys):
            if not self.isnum(x) or not self.isnum(y):
                if isinstance(x, (Ite, SymBool)) or isinstance(y, (Ite, SymBool)):
                    self.ctx.prove(label, x == y)
                elif not (x is y or x == y):
                    self.ctx.prove(label, False)
                continue
            x, y = lift(x), lift(y)
            if x.special or y.special:
                if x.special != y.special:
                    self.ctx.prove(label, False)
                continue
            pairs.append((x.re, y.re))
            if x.im is not None or y.im is not None:
                pairs.append((x.im or ZERO, y.im or ZERO))
        self.ctx.prove_equal(label, pairs)

    def leq(self, label, a, b):
        self.note(label, a)
        self.ctx.prove(label, lift(a) <= lift(b))

    def finite(self, x):
        f = all(not (isinstance(y, S) and y.special) for y in nums(x))
        if not f:
            self.claim('finite', False)
        return f

    def stop(self):
        raise Stop()


class Real(Base):
    mode = 'real'

    def proved(self, key):
        return False

    def __init__(self, point, choices, pkgdir):
        self.point = point
        self.choices = list(choices)
        self.np = rnp
        self.pkgdir = pkgdir
        self.names = set()
        self.failed = []
        self.nclaims = 0
        self.record = []
        self.rand = 0
        self.missing = []

    def uniq(self, name):
        base, k = name, 1
        while name in self.names:
            k += 1
            name = '%s#%d' % (base, k)
        self.names.add(name)
        return name

    def mod(self, name):
        if self.pkgdir not in sys.path:
            sys.path.insert(0, self.pkgdir)
        patch_numpy()
        return importlib.import_module(name)

    def external(self, name, **attrs):
        for k, m in loader.external(name, **attrs).items():
            sys.modules.setdefault(k, m)

    def get(self, name, default):
        name = self.uniq(name)
        if name in self.point and self.point[name] is not None:
            return float(self.point[name])
        self.missing.append(name)
        return default

    def real(self, name, sign=None, nz=False, lo=None, hi=None):
        return self.get(name, 1.0 if lo is None else lo)

    def int(self, name, lo, hi, **k):
        return builtins.int(round(self.get(name, lo)))

    def cplx(self, re, im):
        return complex(re, im)

    def npscalar(self, x, dtype):
        return rnp.dtype(DT[dtype]).type(x)

    def const(self, x):
        return float(Fraction(x))

    def array(self, xs, dtype='d'):
        return rnp.array(xs, dtype=DT[dtype])

    def choose_index(self, name, n):
        return self.choices.pop(0) if self.choices else 0

    def decide(self, c):
        return bool(c)

    def and_(self, *a):
        return all(bool(x) for x in a)

    def or_(self, *a):
        return any(bool(x) for x in a)

    def not_(self, a):
        return not a

    def le(self, a, b):
        "a <= b up to rounding"
        return a <= b + 1e-9 * (abs(a) + abs(b)) + 1e-12

    def isnum(self, x):
        return isinstance(x, (int, float, complex, rnp.generic))

    def assume(self, c):
        if not c:
            raise Skip()

    def sqrt(self, x):
        return rnp.sqrt(x)

    def max(self, a, b):
        return builtins.max(a, b)

    def min(self, a, b):
        return builtins.min(a, b)

    def claim(self, label, c):
        self.nclaims += 1
        if not bool(c):
            self.failed.append((label, 'false'))

    def note(self, label, *xs):
        self.record.append((label, [y for x in xs for y in nums(x)]))

    def eq(self, label, a, b, sh=True):
        self.nclaims += 1
        if sh and shape_of(a) != shape_of(b):
            self.failed.append((label, 'shape %s vs %s' % (shape_of(a), shape_of(b))))
            return
        xs, ys = nums(a), nums(b)
        if len(xs) == 1:
            xs = xs * len(ys)
        elif len(ys) == 1:
            ys = ys * len(xs)
        if len(xs) != len(ys):
            self.failed.append((label, 'size'))
            return
        self.note(label, a)
        scale = 0.0
        ns = [(x, y) for x, y in zip(xs, ys) if self.isnum(x) and self.isnum(y)]
        for x, y in ns:
            for z in (x, y):
                z = abs(complex(z))
                if z == z and z != float('inf'):
                    scale = max(scale, z)
        for x, y in zip(xs, ys):
            if not self.isnum(x) or not self.isnum(y):
                ok = x is y or x == y
            else:
                x, y = complex(x), complex(y)
                if x != x or y != y:
                    ok = x != x and y != y
                else:
                    ok = x == y or abs(x - y) <= 1e-7 * scale + 1e-10
            if not ok:
                self.failed.append((label, '%r vs %r' % (x, y)))
                return

    def leq(self, label, a, b):
        self.nclaims += 1
        self.note(label, a)
        if not (a <= b + 1e-7 * (abs(a) + abs(b)) + 1e-10):
            self.failed.append((label, '%r > %r' % (a, b)))

    def finite(self, x):
        f = bool(rnp.all(rnp.isfinite(rnp.asarray(x, dtype=complex))))
        if not f:
            self.claim('finite', False)
        return f

    def stop(self):
        raise Stop()


CURRENT = [None]
_patched = [False]


def patch_numpy():
    """Uninitialised memory holds a garbage value, and random numbers are the ones of the
    counterexample."""
    if _patched[0]:
        return
    _patched[0] = True
    real_empty, real_empty_like = rnp.empty, rnp.empty_like

    def fill(a):
        if CURRENT[0] is not None and isinstance(a, rnp.ndarray) and a.dtype.kind in 'fc':
            a.fill(1234.5)
        return a

    def empty(*a, **k):
        return fill(real_empty(*a, **k))

    def empty_like(*a, **k):
        return fill(real_empty_like(*a, **k))
    rnp.empty, rnp.empty_like = empty, empty_like

    R = rnp.random

    def wrap(old, shape_fn):
        def f(*a, **k):
            h = CURRENT[0]
            if h is None:
                return old(*a, **k)
            r = old(*a, **k)
            if isinstance(r, rnp.ndarray):
                flat = r.reshape(-1)
                for i in range(flat.size):
                    flat[i] = h.get('rand', flat[i])
                return r
            return h.get('rand', r)
        return f
    for n in ('random', 'random_sample', 'ranf', 'sample', 'rand', 'randn', 'standard_normal'):
        if hasattr(R, n):
            setattr(R, n, wrap(getattr(R, n), None))
