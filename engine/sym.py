"""Symbolic scalars, symbolic booleans and the path explorer's context.

A symbolic scalar is (real part, imaginary part, kind): the parts are canonical
polynomials (poly.py), the kind says which Python or numpy type the value has in
the real program, because that decides what `/`, `sqrt`, result_type and so on do.
"""
import math
from fractions import Fraction

import numpy as rnp

import poly
from poly import Poly, ZERO, ONE, quick_sign


class PathEnd(BaseException):
    "The current path is infeasible or was cut; the reason is its argument."


class Unsupported(Exception):
    "The encoder does not model what the code asked for."


class Inconclusive(BaseException):
    "The path cannot be continued (budget or an unsupported construct)."


CTX = None


def set_ctx(c):
    global CTX
    CTX = c


# ---------------------------------------------------------------------------
# Formulas.  Nodes: True/False, Rel(op, poly) meaning  poly op 0, And, Or, Not.

class Rel(object):
    __slots__ = ('op', 'p')

    def __init__(self, op, p):
        self.op = op
        self.p = p


class And(object):
    __slots__ = ('xs',)

    def __init__(self, xs):
        self.xs = xs


class Or(object):
    __slots__ = ('xs',)

    def __init__(self, xs):
        self.xs = xs


def f_and(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.extend(x.xs if isinstance(x, And) else [x])
    return True if not out else out[0] if len(out) == 1 else And(out)


def f_or(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.extend(x.xs if isinstance(x, Or) else [x])
    return False if not out else out[0] if len(out) == 1 else Or(out)


NEGOP = {'==': '!=', '!=': '=='}


def f_not(x):
    if x is True:
        return False
    if x is False:
        return True
    if isinstance(x, Rel):
        if x.op in NEGOP:
            return Rel(NEGOP[x.op], x.p)
        if x.op == '<':
            return Rel('<=', -x.p)
        return Rel('<', -x.p)
    if isinstance(x, And):
        return f_or(*[f_not(y) for y in x.xs])
    return f_and(*[f_not(y) for y in x.xs])


def rel(op, p):
    "A relation  p op 0, decided by signs where they suffice."
    if p.is_const():
        c = p.constval()
        return {'<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0}[op]
    s = quick_sign(p)
    if s is None and CTX is not None:
        s = CTX.known_sign(p)
    if s is not None:
        if op == '<':
            if s == '-':
                return True
            if s in ('+', '0+', '0'):
                return False
        elif op == '<=':
            if s in ('-', '0-', '0'):
                return True
            if s == '+':
                return False
        elif op == '==':
            if s == '0':
                return True
            if s in ('+', '-', '!'):
                return False
        else:
            if s == '0':
                return False
            if s in ('+', '-', '!'):
                return True
    if poly.looks_zero(p):
        try:
            if poly.zero_form(p, limit=20000, work=1500000).is_zero():
                return {'<': False, '<=': True, '==': True, '!=': False}[op]
        except poly.Budget:
            pass
    # simplify by dropping positive content
    c, m, q = poly.split_content(p)
    ms = quick_sign(Poly({m: 1}))
    if ms == '+':
        p = q
    elif op in ('==', '!=') and ms in ('!', '+'):
        p = q
    f = poly.fixed_form(p)
    if f is not None:
        p, s = f
        if s == '-':
            p = -p
        if len(p.t) == 1:
            s = quick_sign(p)
            if s in ('+', '-'):
                return {'<': s == '-', '<=': s == '-', '==': False, '!=': True}[op]
    return Rel(op, p)


def f_eval(f, i, tol=0.0):
    "Truth of a formula at sample point i; None if not a number is involved."
    if f is True or f is False:
        return f
    if isinstance(f, Rel):
        v = f.p.vals()[i]
        if v != v:
            return None
        if f.op == '<':
            return v < -tol
        if f.op == '<=':
            return v <= -tol if tol else v <= 0
        if f.op == '==':
            return v == 0
        return abs(v) > tol
    rs = [f_eval(x, i, tol) for x in f.xs]
    if isinstance(f, And):
        if False in rs:
            return False
        return None if None in rs else True
    if True in rs:
        return True
    return None if None in rs else False


def f_atoms(f, acc=None):
    acc = set() if acc is None else acc
    if isinstance(f, Rel):
        acc |= f.p.atoms()
    elif not isinstance(f, bool):
        for x in f.xs:
            f_atoms(x, acc)
    return acc


class SymBool(object):
    __slots__ = ('f',)
    __array_ufunc__ = None

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return CTX.decide(self.f)

    def __and__(self, o):
        return mkbool(f_and(self.f, fof(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(f_or(self.f, fof(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(f_not(self.f))

    def __eq__(self, o):
        g = fof(o)
        return mkbool(f_or(f_and(self.f, g), f_and(f_not(self.f), f_not(g))))

    def __ne__(self, o):
        return mkbool(f_not(fof(self == o)))

    def __hash__(self):
        return id(self)

    def all(self, *a, **k):
        return self

    any = all

    def item(self):
        return self

    @property
    def dtype(self):
        return rnp.dtype(bool)

    # arithmetic on booleans (0/1)
    def _int(self):
        return mk_ite(self.f, 1, 0)

    def __add__(self, o):
        return self._int() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._int() * o
    __rmul__ = __mul__

    def __int__(self):
        return 1 if self else 0


def mkbool(f):
    if f is True or f is False:
        return f
    return SymBool(f)


def fof(x):
    "Formula of a Python truth value."
    if x is True or x is False:
        return x
    if isinstance(x, (SymBool,)):
        return x.f
    if isinstance(x, (Rel, And, Or)):
        return x
    if isinstance(x, rnp.bool_):
        return bool(x)
    if isinstance(x, Ite):
        return x.truth()
    return bool(x)


# ---------------------------------------------------------------------------
# If-then-else values of plain Python data (status codes), from if-conversion.

class Ite(object):
    "A value that is one of finitely many plain Python values."
    __slots__ = ('alts',)
    __array_ufunc__ = None

    def __init__(self, alts):
        self.alts = alts          # [(formula, value)], mutually exclusive and exhaustive

    def map(self, fn):
        out = {}
        for f, v in self.alts:
            r = fn(v)
            k = (type(r).__name__, repr(r))
            if k in out:
                out[k] = (f_or(out[k][0], f), r)
            else:
                out[k] = (f, r)
        xs = [(f, v) for f, v in out.values() if f is not False]
        if len(xs) == 1:
            return xs[0][1]
        return Ite(xs)

    def truth(self):
        return f_or(*[f for f, v in self.alts if v])

    def pred(self, fn):
        return mkbool(f_or(*[f_and(f, fof(fn(v))) for f, v in self.alts]))

    def __eq__(self, o):
        return self.pred(lambda v: v == o)

    def __ne__(self, o):
        return self.pred(lambda v: v != o)

    def __lt__(self, o):
        return self.pred(lambda v: v < o)

    def __le__(self, o):
        return self.pred(lambda v: v <= o)

    def __gt__(self, o):
        return self.pred(lambda v: v > o)

    def __ge__(self, o):
        return self.pred(lambda v: v >= o)

    def __hash__(self):
        return hash(self.force())

    def __bool__(self):
        return CTX.decide(self.truth())

    def __add__(self, o):
        return self.map(lambda v: v + o)

    def __radd__(self, o):
        return self.map(lambda v: o + v)

    def __sub__(self, o):
        return self.map(lambda v: v - o)

    def __mul__(self, o):
        return self.map(lambda v: v * o)

    def __rmul__(self, o):
        return self.map(lambda v: o * v)

    def __neg__(self):
        return self.map(lambda v: -v)

    def force(self):
        "Fork on the value."
        for f, v in self.alts[:-1]:
            if CTX.decide(f):
                return v
        return self.alts[-1][1]

    def __index__(self):
        return self.force().__index__()

    __int__ = __index__

    def __getattr__(self, name):
        if name.startswith('__') or not all(isinstance(v, str) for f, v in self.alts):
            raise AttributeError("'Ite' object has no attribute %r" % name)
        return lambda *a, **k: self.map(lambda v: getattr(v, name)(*a, **k))

    def __mod__(self, o):
        return self.map(lambda v: v % o)

    def __getitem__(self, i):
        return self.map(lambda v: v[i])

    def __repr__(self):
        return 'Ite(%s)' % ','.join(repr(v) for f, v in self.alts)


PLAIN = (int, float, bool, str, type(None))


def ite_merge(f, a, b):
    """a if f else b for plain values, scalars and arrays; None if not mergeable."""
    if f is True:
        return a
    if f is False:
        return b
    pa, pb = isinstance(a, PLAIN + (Ite,)), isinstance(b, PLAIN + (Ite,))
    if pa and pb:
        xs = {}
        for g, v in (((f_and(f, g), v) for g, v in (a.alts if isinstance(a, Ite) else [(True, a)]))):
            k = (type(v).__name__, repr(v))
            xs[k] = (f_or(xs[k][0], g) if k in xs else g, v)
        nf = f_not(f)
        for g, v in (b.alts if isinstance(b, Ite) else [(True, b)]):
            k = (type(v).__name__, repr(v))
            g = f_and(nf, g)
            xs[k] = (f_or(xs[k][0], g) if k in xs else g, v)
        out = [x for x in xs.values() if x[0] is not False]
        if len(out) == 1:
            return out[0][1]
        return Ite(out)
    return None


def mk_ite(f, a, b):
    r = ite_merge(f, a, b)
    if r is None:
        return a if CTX.decide(f) else b
    return r


# ---------------------------------------------------------------------------
# Scalars

PYI, PYF, PYC = 'py_int', 'py_float', 'py_complex'
RANK = {PYI: 0, PYF: 1, PYC: 2}
NPD = {PYI: rnp.dtype('int64'), PYF: rnp.dtype('float64'), PYC: rnp.dtype('complex128')}


def is_np(kind):
    return isinstance(kind, rnp.dtype)


def kind_dtype(kind):
    return kind if is_np(kind) else NPD[kind]


def join_kind(a, b):
    if a == b:
        return a
    if not is_np(a) and not is_np(b):
        return a if RANK[a] >= RANK[b] else b
    if is_np(a) and is_np(b):
        return rnp.result_type(a, b)
    d, p = (a, b) if is_np(a) else (b, a)
    # numpy scalar with Python scalar: value based, a Python scalar never
    # widens within its own category
    if p == PYC:
        return rnp.result_type(d, rnp.dtype('complex64')) if d.kind in 'fc' else rnp.dtype('complex128')
    if p == PYF:
        return d if d.kind in 'fc' else rnp.dtype('float64')
    return d if d.kind in 'iufc' else rnp.dtype('int64')


def is_int_kind(k):
    return k == PYI or (is_np(k) and k.kind in 'iub')


def is_cplx_kind(k):
    return k == PYC or (is_np(k) and k.kind == 'c')


NAN, PINF, NINF = 'nan', 'inf', '-inf'


class S(object):
    "A symbolic number."
    __slots__ = ('re', 'im', 'kind', 'special')
    __array_ufunc__ = None
    __array_priority__ = 1000.0

    def __init__(self, re, im=None, kind=PYF, special=None):
        self.re = re
        self.im = im if im is not None and im.t else None
        self.kind = kind
        self.special = special

    # -- conversions ---------------------------------------------------
    @property
    def dtype(self):
        if not is_np(self.kind):
            raise AttributeError("'%s' object has no attribute 'dtype'" % self.kind)
        return self.kind

    @property
    def shape(self):
        if not is_np(self.kind):
            raise AttributeError("no attribute 'shape'")
        return ()

    ndim = property(lambda self: len(self.shape))
    size = property(lambda self: 1 if self.shape == () else 0)

    @property
    def real(self):
        return S(self.re, None, real_kind(self.kind), self.special)

    @property
    def imag(self):
        return S(self.im or ZERO, None, real_kind(self.kind))

    def conjugate(self):
        return S(self.re, -self.im if self.im is not None else None, self.kind, self.special)

    conj = conjugate

    def item(self):
        k = {'i': PYI, 'u': PYI, 'f': PYF, 'c': PYC}[kind_dtype(self.kind).kind]
        return S(self.re, self.im, k, self.special)

    def copy(self):
        return self

    def astype(self, dt, **kw):
        return cast(self, rnp.dtype(dt))

    def squeeze(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def is_const(self):
        return self.special is None and self.re.is_const() and self.im is None

    def const(self):
        c = self.re.constval()
        return c

    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise Unsupported('float() of a symbolic value outside the shim')

    def __int__(self):
        if self.is_const() and Fraction(self.const()).denominator == 1:
            return int(self.const())
        return concretize_int(self)

    def __index__(self):
        if not is_int_kind(self.kind):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(self)

    def __complex__(self):
        raise Unsupported('complex() of a symbolic value outside the shim')

    def __hash__(self):
        return hash((self.re.key(), self.im.key() if self.im else None))

    def __repr__(self):
        if self.special:
            return '<%s>' % self.special
        return 'S(%r%s)' % (self.re, '' if self.im is None else ' + 1j*(%r)' % self.im)

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        return '<sym>'

    # -- arithmetic ----------------------------------------------------
    def __neg__(self):
        if self.special:
            return S(ZERO, None, self.kind, {NAN: NAN, PINF: NINF, NINF: PINF}[self.special])
        return S(-self.re, -self.im if self.im is not None else None, self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    def __add__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        k = join_kind(self.kind, o.kind)
        if self.special or o.special:
            return special_op('+', self, o, k)
        return S(self.re + o.re, cadd(self.im, o.im), k)

    def __radd__(self, o):
        o = lift(o)
        return NotImplemented if o is None else o + self

    def __sub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        k = join_kind(self.kind, o.kind)
        if self.special or o.special:
            return special_op('+', self, -o, k)
        return S(self.re - o.re, cadd(self.im, -o.im if o.im is not None else None), k)

    def __rsub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else o - self

    def __mul__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        k = join_kind(self.kind, o.kind)
        if self.special or o.special:
            return special_op('*', self, o, k)
        a, b, c, d = self.re, self.im, o.re, o.im
        if b is None and d is None:
            return S(pmul(a, c), None, k)
        if b is None:
            return S(pmul(a, c), pmul(a, d), k)
        if d is None:
            return S(pmul(a, c), pmul(b, c), k)
        re, im = pmul(a, c) - pmul(b, d), pmul(a, d) + pmul(b, c)
        if not im.t:
            # z * conj(z)
            if c.t == a.t and (-d).t == b.t:
                re.nn = True
        return S(re, im, k)

    def __rmul__(self, o):
        o = lift(o)
        return NotImplemented if o is None else o * self

    def __truediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else s_div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else s_div(o, self)

    def __floordiv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else s_floordiv(self, o)

    def __rfloordiv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else s_floordiv(o, self)

    def __mod__(self, o):
        o = lift(o)
        return NotImplemented if o is None else self - s_floordiv(self, o) * o

    def __rmod__(self, o):
        o = lift(o)
        return NotImplemented if o is None else o - s_floordiv(o, self) * self

    def __pow__(self, o):
        return s_pow(self, o)

    def __rpow__(self, o):
        return s_pow(lift(o), self)

    # -- comparisons ---------------------------------------------------
    def _cmp(self, o, op):
        o = lift(o)
        if o is None:
            return NotImplemented
        if op in ('==', '!='):
            if self.special or o.special:
                same = self.special == o.special and self.special != NAN
                return same if op == '==' else not same
            f = f_and(rel('==', self.re - o.re), rel('==', (self.im or ZERO) - (o.im or ZERO)))
            return mkbool(f if op == '==' else f_not(f))
        if (self.im is not None or o.im is not None):
            if not is_np(self.kind) and not is_np(o.kind):
                raise TypeError('no ordering relation is defined for complex numbers')
            if self.special or o.special:
                raise Unsupported('comparison of complex infinities')
            d, e = self.re - o.re, (self.im or ZERO) - (o.im or ZERO)   # numpy compares lexicographically
            return mkbool(f_or(rel(op[0], d), f_and(rel('==', d), rel(op, e))))
        if self.special or o.special:
            a, b = self.special, o.special
            if NAN in (a, b):
                return False
            va = {PINF: 1, NINF: -1, None: 0}[a]
            vb = {PINF: 1, NINF: -1, None: 0}[b]
            return {'<': va < vb, '<=': va <= vb, '>': va > vb, '>=': va >= vb}[op]
        d = self.re - o.re
        if op == '<':
            return mkbool(rel('<', d))
        if op == '<=':
            return mkbool(rel('<=', d))
        if op == '>':
            return mkbool(rel('<', -d))
        return mkbool(rel('<=', -d))

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, '!=')
        return True if r is NotImplemented else r

    def __bool__(self):
        if self.special:
            return True
        r = self != 0
        return bool(r)

    # numpy-scalar conveniences
    def sum(self, *a, **k):
        return self

    def dot(self, o):
        return self * o

    def any(self):
        return self != 0

    all = any

    def tolist(self):
        return self.item()

    def sqrt(self):
        return s_sqrt(self)

    def is_integer(self):
        raise Unsupported('is_integer')


def real_kind(k):
    if k == PYC:
        return PYF
    if is_np(k) and k.kind == 'c':
        return rnp.dtype('f%d' % (k.itemsize // 2))
    return k


def cadd(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return a + b


def pmul(a, b):
    "Product; large factors are named first so that terms stay small."
    n, m = len(a.t), len(b.t)
    if n * m > CTX.mul_limit and n > 1 and m > 1:
        if n >= m:
            same = a is b or a.t == b.t
            a = named(a)
            if same:
                r = a * a
                r.nn = True
                return r
            if m > 40:
                b = named(b)
        else:
            b = named(b)
            if n > 40:
                a = named(a)
    return a * b


def named(p):
    if len(p.t) < 2:
        return p
    p = poly.drop_zero(p)
    if not p.t:
        return p
    c, m = poly.name_poly(p)
    r = Poly({m: c})
    r.nn = p.nn
    return r


def lift(x):
    if isinstance(x, S):
        return x
    if isinstance(x, Ite):
        return lift(x.force())
    if isinstance(x, bool):
        return S(Poly.const(int(x)), None, PYI)
    if isinstance(x, int):
        return S(Poly.const(x), None, PYI)
    if isinstance(x, float) and not isinstance(x, rnp.generic):
        return lift_float(x, PYF)
    if isinstance(x, complex) and not isinstance(x, rnp.generic):
        return S(Poly.const(x.real), Poly.const(x.imag), PYC)
    if isinstance(x, rnp.generic):
        dt = x.dtype
        if dt.kind in 'iub':
            return S(Poly.const(int(x)), None, dt if dt.kind != 'b' else rnp.dtype('int64'))
        if dt.kind == 'f':
            return lift_float(float(x), dt)
        if dt.kind == 'c':
            z = complex(x)
            return S(Poly.const(z.real), Poly.const(z.imag), dt)
    if isinstance(x, Fraction):
        return S(Poly.const(x), None, PYF)
    if isinstance(x, SymBool):
        return lift(x._int())
    return None


def lift_float(x, kind):
    if x != x:
        return S(ZERO, None, kind, NAN)
    if x == float('inf'):
        return S(ZERO, None, kind, PINF)
    if x == float('-inf'):
        return S(ZERO, None, kind, NINF)
    return S(Poly.const(x), None, kind)


def special_op(op, a, b, kind):
    "inf/nan arithmetic"
    x, y = a.special, b.special
    if NAN in (x, y):
        return S(ZERO, None, kind, NAN)
    if op == '+':
        if x and y and x != y:
            return S(ZERO, None, kind, NAN)
        return S(ZERO, None, kind, x or y)
    if op == '*':
        sa = {PINF: 1, NINF: -1}.get(x)
        sb = {PINF: 1, NINF: -1}.get(y)
        if sa is None:
            sa = sign_of(a)
        if sb is None:
            sb = sign_of(b)
        s = sa * sb
        return S(ZERO, None, kind, NAN if s == 0 else PINF if s > 0 else NINF)
    raise AssertionError


def sign_of(a):
    if a.im is not None:
        return 0
    if CTX.decide(rel('<', a.re)):
        return -1
    if CTX.decide(rel('==', a.re)):
        return 0
    return 1


def s_div(a, b):
    k = join_kind(a.kind, b.kind)
    if is_int_kind(k):
        k = PYF if not is_np(k) else rnp.dtype('float64')
    if a.special or b.special:
        if NAN in (a.special, b.special) or (a.special and b.special):
            return S(ZERO, None, k, NAN)
        if b.special:
            return S(ZERO, None, k)
        s = sign_of(b)
        if s == 0:
            s = 1
        return a if s > 0 else -a
    # is the denominator zero?
    if b.im is None:
        z = rel('==', b.re)
    else:
        z = rel('==', b.re * b.re + b.im * b.im)
    if z is not False and CTX.decide_zero(z):
        if not is_np(k):
            raise ZeroDivisionError('division by zero')
        if a.im is not None or is_cplx_kind(k):
            return S(ZERO, None, k, NAN)
        s = sign_of(a)
        return S(ZERO, None, k, NAN if s == 0 else PINF if s > 0 else NINF)
    if b.im is None:
        if b.re.is_const():
            inv = Poly.const(Fraction(1) / Fraction(b.re.constval()))
        else:
            inv = poly.inverse(b.re)
        re, im = a.re, a.im
        if CTX.name_numerators and len(re.t) > CTX.name_numerators and not b.re.is_const():
            re = named(re)
        if im is not None and CTX.name_numerators and len(im.t) > CTX.name_numerators:
            im = named(im)
        return S(re * inv, None if im is None else im * inv, k)
    n2 = b.re * b.re + b.im * b.im
    n2.nn = True
    inv = poly.inverse(n2)
    c = a * b.conjugate()
    re, im = c.re, c.im
    if CTX.name_numerators and len(re.t) > CTX.name_numerators:
        re = named(re)
    if im is not None and CTX.name_numerators and len(im.t) > CTX.name_numerators:
        im = named(im)
    return S(re * inv, None if im is None else im * inv, k)


def s_floordiv(a, b):
    k = join_kind(a.kind, b.kind)
    if a.is_const() and b.is_const():
        if b.const() == 0:
            if is_np(k):
                return S(ZERO, None, k, None if is_int_kind(k) else NAN)
            raise ZeroDivisionError('integer division or modulo by zero')
        return S(Poly.const(Fraction(a.const()) // Fraction(b.const())), None, k)
    if b.is_const() and abs(b.const()) == 1 and is_int_kind(k):
        return S(a.re.scale(b.const()), None, k)
    if CTX.decide_zero(rel('==', b.re)):
        if is_np(k):
            return S(ZERO, None, k, None if is_int_kind(k) else NAN)
        raise ZeroDivisionError('integer division or modulo by zero')
    # q integer with q*b <= a < q*b + b  (b > 0), or mirrored
    q = CTX.fresh_floor(a, b)
    return S(q, None, k)


def s_pow(a, o):
    if a is None:
        return NotImplemented
    o = lift(o)
    if o is None:
        return NotImplemented
    k = join_kind(a.kind, o.kind)
    if a.special or o.special:
        return S(ZERO, None, k, NAN)
    if not o.is_const():
        if a.is_const() and a.const() == 1:
            return S(ONE, None, k)
        raise Unsupported('symbolic exponent')
    e = Fraction(o.const())
    if e.denominator == 1:
        n = int(e)
        if n >= 0:
            r = S(ONE, None, k)
            for _ in range(n):
                r = r * a
            return S(r.re, r.im, k)
        return s_div(S(ONE, None, k), s_pow(a, -n))
    if a.is_const() and abs(e) != Fraction(1, 2):
        v = float(a.const()) ** float(e)
        return S(Poly.const(v), None, k)
    if e == Fraction(1, 2) or e == Fraction(-1, 2):
        # float ** .5 of a negative Python float is complex in Python 3 and an
        # error in Python 2; of a numpy float it is nan
        if a.im is not None:
            r = s_sqrt(a)
        elif CTX.decide(rel("<", a.re), True):
            if not is_np(a.kind):
                raise ValueError('negative number cannot be raised to a fractional power')
            r = S(ZERO, None, k, NAN)
        else:
            r = S(poly.sqrt_poly(a.re), None, k)
        return r if e > 0 else s_div(S(ONE, None, k), r)
    raise Unsupported('power %s' % e)


def s_abs(a):
    k = real_kind(a.kind)
    if a.special:
        return S(ZERO, None, k, NAN if a.special == NAN else PINF)
    if a.im is None:
        p = a.re
        s = quick_sign(p)
        if s is None:
            s = CTX.known_sign(p)
        if s in ('+', '0+', '0'):
            return S(p, None, k)
        if s in ('-', '0-'):
            return S(-p, None, k)
        if CTX.fork_abs and not p.is_const():
            return S(-p if CTX.decide(rel('<', p)) else p, None, k)
        return S(poly.abs_poly(p), None, k)
    n2 = a.re * a.re + a.im * a.im
    n2.nn = True
    return S(poly.sqrt_poly(n2), None, k)


def s_sqrt(a):
    "numpy.sqrt"
    k = a.kind if not is_int_kind(a.kind) else rnp.dtype('float64')
    if not is_np(k):
        k = kind_dtype(k)
    if a.special:
        return S(ZERO, None, k, PINF if a.special == PINF else NAN)
    if not is_cplx_kind(k):
        if CTX.decide(rel('<', a.re), True):
            return S(ZERO, None, k, NAN)
        return S(poly.sqrt_poly(nn(a.re)), None, k)
    im = a.im or ZERO
    if not im.is_zero() and rel('==', im) is True:
        im = ZERO
    if im.is_zero() or CTX.decide(rel('==', im)):
        if CTX.decide(rel('<', a.re)):
            return S(ZERO, poly.sqrt_poly(nn(-a.re)), k)
        return S(poly.sqrt_poly(nn(a.re)), None, k)
    n2 = a.re * a.re + im * im
    n2.nn = True
    md = poly.sqrt_poly(n2)
    half = Fraction(1, 2)
    r1 = poly.sqrt_poly(nn((md + a.re).scale(half)))
    r2 = poly.sqrt_poly(nn((md - a.re).scale(half)))
    if CTX.decide(rel('<', im)):
        r2 = -r2
    return S(r1, r2, k)


def nn(p):
    "p, known to be nonnegative on this path"
    if p.nn:
        return p
    return Poly(dict(p.t), True)


def cast(a, dt):
    "a as a numpy scalar of type dt"
    if not isinstance(a, S):
        a = lift(a)
    if a.special:
        return S(ZERO, None, dt, a.special)
    if dt.kind == 'c':
        return S(a.re, a.im, dt)
    if dt.kind == 'f':
        return S(a.re, None, dt)
    if dt.kind in 'iu':
        if is_int_kind(a.kind):
            return S(a.re, None, dt)
        if a.re.is_const():
            return S(Poly.const(int(a.re.constval())), None, dt)
        at = a.re.atoms()
        if all(x.is_int for x in at) and all(Fraction(c).denominator == 1 for c in a.re.t.values()):
            return S(a.re, None, dt)
        if all(x.is_int and x.lo is not None for x in at) and len(at) == 1:
            return S(Poly.const(concretize_int(a)), None, dt)
        return S(CTX.fresh_trunc(a), None, dt)
    if dt.kind == 'b':
        return a != 0
    if dt.kind == 'O':
        return a
    raise Unsupported('cast to %s' % dt)


def concretize_int(a):
    "int() of an integral symbolic value: fork over its possible values."
    ats = a.re.atoms()
    if all(x.is_int and x.lo is not None for x in ats) and len(ats) == 1:
        (x,) = ats
        for v in range(x.lo, x.hi + 1):
            if CTX.decide(rel('==', Poly.atom(x) - Poly.const(v))):
                val = ZERO
                for m, c in a.re.t.items():
                    e = poly.SP.exp_of(m, x)
                    val = val + Poly.const(c * v ** e)
                return int(val.constval())
    raise Unsupported('int() of a symbolic value')


def merge_max(a, b):
    "max of two scalars without forking"
    a, b = lift(a), lift(b)
    if a.special or b.special or a.im is not None or b.im is not None:
        return a if bool(a >= b) else b
    c = a >= b
    if c is True:
        return a
    if c is False:
        return b
    k = join_kind(a.kind, b.kind)
    return S(CTX.max_atom(a.re, b.re), None, k)


def merge_min(a, b):
    a, b = lift(a), lift(b)
    if a.special or b.special or a.im is not None or b.im is not None:
        return a if bool(a <= b) else b
    c = a <= b
    if c is True:
        return a
    if c is False:
        return b
    k = join_kind(a.kind, b.kind)
    return S(-CTX.max_atom(-a.re, -b.re), None, k)
