"""Loads the (translated) sources of /repo for symbolic execution: the modules' own code
runs, with numpy, math and the numeric builtins replaced by symbolic-aware ones."""
import ast
import builtins
import logging
import math
import os
import sys
import types
import functools

import numpy as rnp

import poly
import sym
import shimnp
from poly import Poly, ZERO
from sym import S, Ite, SymBool, Unsupported, lift, mkbool, f_and, f_or, f_not, fof, PYF, PYI, PYC
from shimnp import SymArray

logging.disable(logging.CRITICAL)


def symbolic(x):
    if isinstance(x, (S, Ite, SymBool, SymArray)):
        return True
    if isinstance(x, (list, tuple)):
        return any(symbolic(y) for y in x)
    if isinstance(x, dict):
        return any(symbolic(y) for y in x.values())
    return False


REP = {PYI: 1, PYF: 1.0, PYC: 1j}


def rep(x):
    "A concrete object of the type x has in the real program."
    if isinstance(x, S):
        return x.kind.type(1) if sym.is_np(x.kind) else REP[x.kind]
    if isinstance(x, SymBool):
        return True
    if isinstance(x, Ite):
        return x.alts[0][1]
    return x


# -- builtin numeric types ---------------------------------------------------

class Meta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(rep(x), cls._real)

    def __subclasscheck__(cls, c):
        return builtins.issubclass(unreal(c), cls._real)

    def __eq__(cls, o):
        return cls._real is unreal(o)

    def __hash__(cls):
        return hash(cls._real)

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __repr__(cls):
        return repr(cls._real)


def unreal(c):
    return c._real if builtins.isinstance(c, Meta) else c


def scalar_of(x):
    if isinstance(x, Ite):
        x = x.force()
    if isinstance(x, SymArray):
        if x.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        x = x.a.reshape(-1)[0]
    return lift(x) if symbolic(x) else x


def to_float(x=0.0):
    if not symbolic(x):
        return float(x)
    s = scalar_of(x)
    if not isinstance(s, S):
        return float(s)
    if sym.is_cplx_kind(s.kind):
        if not sym.is_np(s.kind):
            raise TypeError("can't convert complex to float")
        return S(s.re, None, PYF, s.special)     # numpy: ComplexWarning, imaginary part dropped
    return S(s.re, None, PYF, s.special)


def to_int(x=0, *a):
    if a or not symbolic(x):
        return int(x, *a)
    s = scalar_of(x)
    if not isinstance(s, S):
        return int(s)
    if s.special:
        raise ValueError('cannot convert float NaN to integer') if s.special == 'nan' \
            else OverflowError('cannot convert float infinity to integer')
    if s.re.is_const():
        return int(s.re.constval())
    return sym.cast(s, rnp.dtype('int64')).item()


def to_complex(x=0, y=0):
    if not symbolic(x) and not symbolic(y):
        return complex(x, y)
    a, b = scalar_of(x), scalar_of(y)
    r = lift(a) + lift(b) * 1j
    return S(r.re, r.im, PYC, r.special)


def to_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, S):
        return x != 0
    return bool(x)


class SymFloat(metaclass=Meta):
    _real = float
    _conv = staticmethod(to_float)
    fromhex = float.fromhex


class SymInt(metaclass=Meta):
    _real = int
    _conv = staticmethod(to_int)


class SymComplex(metaclass=Meta):
    _real = complex
    _conv = staticmethod(to_complex)


class SymBoolT(metaclass=Meta):
    _real = bool
    _conv = staticmethod(to_bool)


class ListMeta(type):
    pass


for _t, _d in ((SymFloat, 'float64'), (SymInt, 'int64'), (SymComplex, 'complex128'), (SymBoolT, 'bool')):
    shimnp.KINDTYPES[_t] = rnp.dtype(_d)


def my_isinstance(x, cls):
    if builtins.isinstance(cls, tuple):
        return any(my_isinstance(x, c) for c in cls)
    cls = unreal(cls)
    if cls is TYPE:
        return builtins.isinstance(x, type)
    return builtins.isinstance(rep(x), cls)


def my_issubclass(c, cls):
    if builtins.isinstance(cls, tuple):
        return any(my_issubclass(c, d) for d in cls)
    return builtins.issubclass(unreal(c), unreal(cls))


def TYPE(*a):
    if len(a) == 1:
        return type(rep(a[0]))
    return type(*a)


def my_abs(x):
    if isinstance(x, Ite):
        x = x.force()
    return abs(x)


def _fold(args, k, merge, what):
    key, default = k.get('key'), k.get('default', _fold)
    if len(args) == 1:
        x = args[0]
        xs = list(x) if not isinstance(x, SymArray) else [x[i] for i in range(len(x))]
    else:
        xs = list(args)
    if not xs:
        if default is not _fold:
            return default
        raise ValueError('%s() arg is an empty sequence' % what)
    if key is not None or not any(symbolic(x) for x in xs):
        f = builtins.max if what == 'max' else builtins.min
        return f(xs, key=key) if key else f(xs)
    if all(lift_ok(x) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            a, b = lift(r), lift(x)
            if a.special or b.special or sym.is_cplx_kind(a.kind) or sym.is_cplx_kind(b.kind):
                c = (b > a) if what == 'max' else (b < a)
                r = x if c else r
            else:
                c = b > a if what == 'max' else b < a
                if c is True:
                    r = x
                elif c is False:
                    pass
                else:
                    if a.re.is_const() or b.re.is_const():
                        # a guard such as max(x, eps): often the path says which it is
                        c = sym.CTX.settle(c)
                    r = x if c is True else r if c is False else merge(a, b)
        return r
    r = xs[0]
    for x in xs[1:]:
        if (x > r) if what == 'max' else (x < r):
            r = x
    return r


def lift_ok(x):
    try:
        return lift(x) is not None
    except Exception:
        return False


def my_max(*a, **k):
    return _fold(a, k, sym.merge_max, 'max')


def my_min(*a, **k):
    return _fold(a, k, sym.merge_min, 'min')


def my_sum(xs, start=0):
    if isinstance(xs, SymArray):
        xs = [xs[i] for i in range(len(xs))]
    r = start
    for x in xs:
        r = r + x
    return r


def idx(x):
    if isinstance(x, Ite):
        return x.force()
    return x


def my_range(*a):
    if any(symbolic(x) for x in a):
        if len(a) == 1:
            return lazy_range(0, a[0], 1)
        if len(a) == 2 or not symbolic(a[2]):
            return lazy_range(a[0], a[1], a[2] if len(a) > 2 else 1)
        a = [x if not isinstance(x, S) else x.__index__() for x in map(idx, a)]
    return range(*a)


def lazy_range(i, end, step):
    # forks only as far as the loop gets
    for x in (i, end):
        if isinstance(x, S) and not sym.is_int_kind(x.kind):
            raise TypeError("'float' object cannot be interpreted as an integer")
    while (i < end) if step > 0 else (i > end):
        yield i
        i = i + step


def my_round(x, n=0):
    if symbolic(x):
        raise Unsupported('round')
    return round(x, n) if n else round(x)


def my_all(xs):
    for x in xs:
        if not x:
            return False
    return True


def my_any(xs):
    for x in xs:
        if x:
            return True
    return False


def my_len(x):
    return len(x)


def my_divmod(a, b):
    return (a // b, a % b)


def my_pow(a, b, *m):
    return a ** b if not m else builtins.pow(a, b, *m)


def my_print(*a, **k):
    return None


def my_callable(x):
    return callable(x)


def my_repr(x):
    return repr(x)


def plain(x):
    "x with symbolic parts replaced by representatives: for formatting only."
    if isinstance(x, SymArray):
        return rnp.ones(x.shape, x.dtype)
    if isinstance(x, (S, SymBool, Ite)):
        return rep(x)
    if isinstance(x, tuple):
        return tuple(plain(y) for y in x)
    if isinstance(x, list):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return dict((k, plain(v)) for k, v in x.items())
    return x


def _mod(a, b):
    if isinstance(a, (str, bytes)):
        return a % (plain(b) if symbolic(b) else b)
    return a % b


def _item(o, i):
    if type(i) is sym.Ite and isinstance(o, (list, tuple, dict)):
        try:
            return i.map(lambda v: o[v])
        except (LookupError, TypeError):
            return o[i.force()]
    return o[i]


def _ite(c, a, x):
    "if c: x = a"
    if not isinstance(c, SymBool):
        return a if c else x
    return sym.mk_ite(c.f, a, x)


def _test(c):
    "the truth value an `if` sees, without forking"
    if isinstance(c, (S, Ite)):
        if isinstance(c, Ite):
            return mkbool(c.truth())
        return c != 0
    if isinstance(c, SymArray) and c.size == 1:
        return _test(c.a.reshape(-1)[0])
    if isinstance(c, SymBool):
        return c
    return True if c else False


# -- math -------------------------------------------------------------------

def _py(x):
    x = scalar_of(x)
    if not isinstance(x, S):
        return x
    if sym.is_cplx_kind(x.kind):
        if not sym.is_np(x.kind):
            raise TypeError("can't convert complex to float")
    return S(x.re, None, PYF, x.special)


def m_sqrt(x):
    if not symbolic(x):
        return math.sqrt(x)
    s = _py(x)
    if s.special:
        if s.special == '-inf':
            raise ValueError('math domain error')
        return s
    if sym.CTX.decide(sym.rel('<', s.re)):
        raise ValueError('math domain error')
    return S(poly.sqrt_poly(sym.nn(s.re)), None, PYF)


def m_copysign(x, y):
    if not symbolic(x) and not symbolic(y):
        return math.copysign(x, y)
    a, b = lift(_py(x)), lift(_py(y))
    a = sym.s_abs(a)
    if b.special:
        neg = b.special == '-inf'
    else:
        neg = bool(b < 0)        # copysign(x, -0.0) aside: reals have one zero
    return -a if neg else a


def m_fabs(x):
    if not symbolic(x):
        return math.fabs(x)
    return sym.s_abs(lift(_py(x)))


def m_hypot(*a):
    if not any(symbolic(x) for x in a):
        return math.hypot(*a)
    acc = None
    for x in a:
        t = lift(_py(x))
        t = t * t
        t.re.nn = True
        acc = t if acc is None else acc + t
    return S(poly.sqrt_poly(sym.nn(acc.re)), None, PYF)


def m_pow(a, b):
    if not symbolic(a) and not symbolic(b):
        return math.pow(a, b)
    return sym.s_pow(lift(_py(a)), _py(b))


def m_floor(x):
    if not symbolic(x):
        return math.floor(x)
    s = _py(x)
    return S(sym.s_floordiv(s, S(poly.ONE, None, PYF)).re, None, PYI)


def m_ceil(x):
    if not symbolic(x):
        return math.ceil(x)
    return -m_floor(-x)


def m_isnan(x):
    s = lift(x)
    return s.special == 'nan'


def m_isinf(x):
    return lift(x).special in ('inf', '-inf')


def m_isfinite(x):
    return lift(x).special is None


def m_fsum(xs):
    return my_sum(xs, 0.0)


class MathShim(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        v = getattr(math, k)
        if not callable(v):
            return v

        def f(*a):
            if any(symbolic(x) for x in a):
                raise Unsupported('math.' + k)
            return v(*a)
        return f


MATH = MathShim('math')
for _k in ('sqrt', 'copysign', 'fabs', 'hypot', 'pow', 'floor', 'ceil', 'isnan', 'isinf', 'isfinite', 'fsum'):
    setattr(MATH, _k, globals()['m_' + _k])


# -- classic division --------------------------------------------------------

def _integral(x):
    x = rep(x)
    if isinstance(x, SymArray):
        return x.dtype.kind in 'biu'
    if isinstance(x, (rnp.ndarray, rnp.generic)):
        return x.dtype.kind in 'biu'
    return isinstance(x, int)


def _arrlike(x):
    return isinstance(rep(x), (SymArray, rnp.ndarray, rnp.generic))


def _integer_operands(a, b):
    if _arrlike(a) or _arrlike(b):
        ok = []
        for x in (a, b):
            if isinstance(x, (list, tuple)):
                ok.append(shimnp.build(x).dtype.kind in 'biu')
            else:
                ok.append(_integral(x))
        return all(ok)
    return _integral(a) and _integral(b)


def div(a, b):
    if isinstance(a, Ite):
        a = a.force()
    if isinstance(b, Ite):
        b = b.force()
    if _integer_operands(a, b):
        return a // b
    if hasattr(type(a), '__div__'):
        r = type(a).__div__(a, b)
        if r is not NotImplemented:
            return r
    if hasattr(type(b), '__rdiv__'):
        r = type(b).__rdiv__(b, a)
        if r is not NotImplemented:
            return r
    if not symbolic(a) and not symbolic(b) and lift_ok(a) and lift_ok(b):
        # keep constants exact
        r = sym.s_div(lift(a), lift(b))
        return r
    return a / b


def idiv(a, b):
    if isinstance(a, SymArray):
        if _integer_operands(a, b):
            a //= b
        else:
            a /= b
        return a
    if _integer_operands(a, b):
        a //= b
        return a
    if hasattr(type(a), '__idiv__'):
        r = type(a).__idiv__(a, b)
        if r is not NotImplemented:
            return r
    return div(a, b)


PY2RT = types.ModuleType('_py2rt')
PY2RT.div, PY2RT.idiv = div, idiv


# -- source rewriting --------------------------------------------------------

def is_plain_const(n):
    if isinstance(n, ast.Constant):
        return isinstance(n.value, (int, float, str, bool, type(None)))
    return (isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub)
            and isinstance(n.operand, ast.Constant) and isinstance(n.operand.value, (int, float)))


def imp_call(name, fromlist, level):
    return ast.Call(ast.Name('__import__', ast.Load()),
                    [ast.Constant(name), ast.Call(ast.Name('globals', ast.Load()), [], []),
                     ast.Constant(None), ast.List([ast.Constant(x) for x in fromlist], ast.Load()),
                     ast.Constant(level)], [])


def _star(m, g):
    names = getattr(m, '__all__', None)
    if names is None:
        names = [k for k in vars(m) if not k.startswith('_')]
    for k in list(names):
        if k in OVERRIDES:
            continue
        g[k] = getattr(m, k)


def _from(m, k):
    try:
        return getattr(m, k)
    except AttributeError:
        raise ImportError('cannot import name %r from %r' % (k, m.__name__))


class Rewrite(ast.NodeTransformer):
    """%  ->  _mod(a, b)  (string formatting must not fork), and
    if test: x = constant   ->   if-conversion, when x is surely bound already."""

    def __init__(self):
        self.bound = [set()]

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name('_mod', ast.Load()), [node.left, node.right], []), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and isinstance(node.slice, (ast.Name, ast.Attribute, ast.BinOp)):
            return ast.copy_location(ast.Call(ast.Name('_item', ast.Load()), [node.value, node.slice], []), node)
        return node

    # PyPy does not honour a module's own __builtins__, so imports become calls
    def visit_Import(self, node):
        out = []
        for al in node.names:
            if al.asname:
                v = imp_call(al.name, ['*'], 0)
                t = al.asname
            else:
                v = imp_call(al.name, [], 0)
                t = al.name.split('.')[0]
            out.append(ast.copy_location(ast.Assign([ast.Name(t, ast.Store())], v), node))
        return out

    def visit_ImportFrom(self, node):
        if node.module == '__future__':
            return node
        call = imp_call(node.module or '', [al.name for al in node.names], node.level)
        if node.names[0].name == '*':
            v = ast.Expr(ast.Call(ast.Name('_star', ast.Load()),
                                  [call, ast.Call(ast.Name('globals', ast.Load()), [], [])], []))
            return ast.copy_location(v, node)
        out = []
        for al in node.names:
            v = ast.Call(ast.Name('_from', ast.Load()), [call, ast.Constant(al.name)], [])
            out.append(ast.copy_location(ast.Assign([ast.Name(al.asname or al.name, ast.Store())], v), node))
        return out

    def visit_FunctionDef(self, node):
        names = set()
        args = node.args
        for a in args.args + args.kwonlyargs:
            names.add(a.arg)
        glob = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                glob |= set(n.names)
        self.glob = glob
        self.bound.append(names)
        node.body = self.block(node.body)
        self.bound.pop()
        return node

    def block(self, body):
        out = []
        for st in body:
            st = self.visit(st)
            if isinstance(st, list):
                out += st
            else:
                out.append(st)
            self.bind(st)
        return out

    def bind(self, st):
        # only statements executed unconditionally within this block
        if isinstance(st, ast.Assign):
            for t in st.targets:
                self.bind_target(t)

    def bind_target(self, t):
        if isinstance(t, ast.Name):
            self.bound[-1].add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.bind_target(e)

    def nested(self, body):
        saved = set(self.bound[-1])
        out = self.block(body)
        self.bound[-1] = saved
        return out

    def visit_If(self, node):
        node.test = self.visit(node.test)
        node.body = self.nested(node.body)
        node.orelse = self.nested(node.orelse)
        if (not node.orelse and len(node.body) == 1 and isinstance(node.body[0], ast.Assign)
                and len(node.body[0].targets) == 1 and isinstance(node.body[0].targets[0], ast.Name)
                and is_plain_const(node.body[0].value) and len(self.bound) > 1):
            x = node.body[0].targets[0].id
            if x in self.bound[-1] and x not in getattr(self, 'glob', ()):
                st = ast.Assign([ast.Name(x, ast.Store())],
                                ast.Call(ast.Name('_ite', ast.Load()),
                                         [ast.Call(ast.Name('_test', ast.Load()), [node.test], []),
                                          node.body[0].value, ast.Name(x, ast.Load())], []))
                return ast.copy_location(st, node)
        return node

    def visit_While(self, node):
        node.test = self.visit(node.test)
        node.body = self.nested(node.body)
        node.orelse = self.nested(node.orelse)
        return node

    def visit_For(self, node):
        node.iter = self.visit(node.iter)
        node.target = self.visit(node.target)
        saved = set(self.bound[-1])
        self.bind_target(node.target)
        node.body = self.nested(node.body)
        self.bound[-1] = saved
        node.orelse = self.nested(node.orelse)
        return node

    def visit_Try(self, node):
        node.body = self.nested(node.body)
        for h in node.handlers:
            h.body = self.nested(h.body)
        node.orelse = self.nested(node.orelse)
        node.finalbody = self.nested(node.finalbody)
        return node

    def visit_With(self, node):
        self.generic_visit(node)
        return node


OVERRIDES = dict(
    float=SymFloat, int=SymInt, complex=SymComplex, bool=SymBoolT,
    abs=my_abs, max=my_max, min=my_min, sum=my_sum, isinstance=my_isinstance,
    issubclass=my_issubclass, type=TYPE, range=my_range, round=my_round, print=my_print,
    all=my_all, any=my_any, pow=my_pow, divmod=my_divmod,
    _mod=_mod, _item=_item, _ite=_ite, _test=_test, _star=_star, _from=_from)


# -- modules -----------------------------------------------------------------

EXTERNAL = {}       # stand-ins for libraries that are not installed, given by a harness


def external(name, **attrs):
    "a package that has only these attributes in its innermost module"
    parent, full = None, ''
    for part in name.split('.'):
        full = full + '.' + part if full else part
        m = EXTERNAL.get(full)
        if m is None:
            m = types.ModuleType(full)
            m.__path__ = []
            EXTERNAL[full] = m
            if parent is not None:
                setattr(parent, part, m)
        parent = m
    parent.__dict__.update(attrs)
    return EXTERNAL

class Loader(object):
    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.functions = {}
        self.over = dict(OVERRIDES, __import__=self.import_)

    def path_of(self, name):
        base = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            return os.path.join(base, '__init__.py'), True
        if os.path.exists(base + '.py'):
            return base + '.py', False
        return None, False

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        parent = None
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
            m = self.modules.get(name)
            if m is not None:
                return m
        path, pkg = self.path_of(name)
        if path is None:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__.update(self.over)
        self.modules[name] = m
        src = open(path, encoding='utf-8').read()
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(Rewrite().visit(tree))
        try:
            exec(compile(tree, path, 'exec', dont_inherit=True), m.__dict__)
        except BaseException:
            del self.modules[name]
            raise
        if parent is not None:
            setattr(parent, name.rsplit('.', 1)[1], m)
        return m

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            full = pkg + '.' + name if name else pkg
            return self._finish(full, fromlist, full)
        if name == 'numpy' or name.startswith('numpy.'):
            if name == 'numpy':
                return shimnp.NUMPY
            if name == 'numpy.linalg':
                return shimnp.LINALG if fromlist else shimnp.NUMPY
            if name == 'numpy.random':
                return shimnp.NUMPY.random if fromlist else shimnp.NUMPY
            return builtins.__import__(name, None, None, fromlist, 0)
        if name == 'math':
            return MATH
        if name == '_py2rt':
            return PY2RT
        if name == 'pykrylov' or name.startswith('pykrylov.'):
            return self._finish(name, fromlist, name.split('.')[0])
        if name in EXTERNAL:
            return EXTERNAL[name] if fromlist else EXTERNAL[name.split('.')[0]]
        if name.split('.')[0] in ('scipy', 'scikits', 'pysparse', 'nlpy'):
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        return builtins.__import__(name, None, None, fromlist, 0)

    def _finish(self, full, fromlist, top):
        m = self.load(full)
        if not fromlist:
            return self.load(top)
        for k in fromlist or ():
            if k != '*' and not hasattr(m, k) and self.path_of(full + '.' + k)[0]:
                self.load(full + '.' + k)
        return m
