"""A numpy for symbolic execution.

Arrays keep a real numpy object array (so indexing, views, broadcasting and aliasing
are numpy's own) plus the logical dtype the real program would see.  Elements are
symbolic scalars.  Casting rules (result_type, in-place casts) are asked of the real
numpy on the logical dtypes."""
import math as _math
import types
from fractions import Fraction

import numpy as rnp

import poly
import sym
from poly import Poly, ZERO
from sym import S, Ite, SymBool, Unsupported, lift, cast, kind_dtype, mkbool, fof, f_and, f_or, f_not

OBJ = rnp.dtype(object)
F8 = rnp.dtype('float64')
I8 = rnp.dtype('int64')
C16 = rnp.dtype('complex128')


def dt(x):
    if isinstance(x, type) and x in KINDTYPES:
        return KINDTYPES[x]
    return rnp.dtype(x)


KINDTYPES = {}


def zero(d):
    return S(ZERO, None, d)


def wrapobj(a, dtype):
    "SymArray, or a scalar if a is not an array"
    if isinstance(a, rnp.ndarray):
        return SymArray(a, dtype)
    if isinstance(a, S):
        return cast(a, dtype) if dtype.kind != 'b' else a
    if dtype.kind == 'b':
        return a
    return cast(lift(a), dtype)


def obj_empty(shape):
    return rnp.empty(shape, dtype=object)


def elems(a):
    return a.a.ravel().tolist() if isinstance(a, SymArray) else [a]


def to_sym(x, dtype=None):
    "array-like -> SymArray (no copy of SymArrays)"
    if isinstance(x, SymArray):
        return x
    if isinstance(x, rnp.ndarray):
        if x.dtype == OBJ:
            return build(x.tolist(), dtype)
        o = obj_empty(x.shape)
        flat = o.reshape(-1) if o.size else o
        for i, v in enumerate(x.ravel()):
            flat[i] = cast(lift(v), x.dtype) if x.dtype.kind != 'b' else bool(v)
        return SymArray(o, x.dtype)
    return build(x, dtype)


def build(x, dtype=None):
    "nested lists / scalars / arrays -> fresh SymArray"
    if isinstance(x, SymArray):
        return SymArray(x.a.copy(), x.dtype)
    if isinstance(x, (rnp.ndarray, )) and x.dtype != OBJ:
        return to_sym(x)
    leaves = []

    def walk(v):
        if isinstance(v, (list, tuple)):
            subs = [walk(u) for u in v]
            if not subs:
                return (0,)
            if any(s != subs[0] for s in subs):
                raise ValueError('inhomogeneous shape')
            return (len(subs),) + subs[0]
        if isinstance(v, SymArray):
            if v.ndim == 0:
                leaves.append((v.a.item(), v.dtype))
                return ()
            return walk([v[i] for i in range(v.shape[0])])
        if isinstance(v, rnp.ndarray):
            return walk(v.tolist() if v.dtype == OBJ else [y for y in v])
        if isinstance(v, (bool, rnp.bool_, SymBool)):
            leaves.append((v, rnp.dtype(bool)))
            return ()
        s = lift(v)
        if s is None:
            if isinstance(v, range) or hasattr(v, '__next__'):
                return walk(list(v))
            raise Unsupported('array of %s' % type(v).__name__)
        leaves.append((s, kind_dtype(s.kind)))
        return ()
    shape = walk(x)
    if dtype is None:
        dtype = rnp.result_type(*[d for _, d in leaves]) if leaves else F8
    o = obj_empty(shape)
    if shape == ():
        o[()] = conv(leaves[0][0], dtype)
    else:
        flat = o.reshape(-1)
        for i, (v, d) in enumerate(leaves):
            flat[i] = conv(v, dtype)
    return SymArray(o, dtype)


def conv(v, d):
    if d.kind == 'b':
        return v if isinstance(v, (bool, SymBool)) else v != 0
    if isinstance(v, (bool, SymBool)):
        v = lift(v)
    return cast(v, d)


def operand_dtype(x, other=None):
    if isinstance(x, SymArray):
        return x.dtype
    if isinstance(x, (bool, rnp.bool_, SymBool)):
        return rnp.dtype(bool)
    return kind_dtype(lift(x).kind)


def value_result(a, b):
    """dtype of a binary operation, with numpy 1.2x value-based casting: a scalar
    only matters through its category."""
    da, db = operand_dtype(a), operand_dtype(b)
    sa = not isinstance(a, SymArray) or a.ndim == 0
    sb = not isinstance(b, SymArray) or b.ndim == 0
    if sa == sb:
        if sa and isinstance(a, S) and isinstance(b, S):
            return kind_dtype(sym.join_kind(a.kind, b.kind))
        return rnp.result_type(da, db)
    arr, sc = (db, da) if sa else (da, db)
    cat = {'b': 0, 'u': 1, 'i': 1, 'f': 2, 'c': 3}
    if cat[sc.kind] <= cat[arr.kind]:
        return arr
    if sc.kind == 'c' and arr.kind == 'f':
        return rnp.result_type(arr, rnp.complex64)
    return rnp.result_type(arr, rnp.float16 if sc.kind == 'f' and arr.itemsize < 2 else sc) \
        if sc.kind != 'f' else rnp.result_type(arr, rnp.float64)


def raw(x):
    "operand for the object-array computation"
    if isinstance(x, SymArray):
        return x.a
    return x if isinstance(x, S) else lift(x)


def binop(op, a, b, out=None, inplace=None):
    for x in (a, b):
        if not isinstance(x, SymArray) and lift(x) is None:
            return NotImplemented
    d = value_result(a, b)
    if op == '/' and d.kind in 'iub':
        d = F8
    if d.kind == 'b':
        if op == '-':
            raise TypeError('numpy boolean subtract')
        d = I8 if op not in '*+' else d
    if inplace is not None and not rnp.can_cast(d, inplace.dtype, 'same_kind'):
        raise rnp.core._exceptions._UFuncOutputCastingError(
            {'+': rnp.add, '-': rnp.subtract, '*': rnp.multiply, '/': rnp.true_divide,
             '//': rnp.floor_divide, '**': rnp.power, '%': rnp.remainder}[op],
            'same_kind', d, inplace.dtype, 0)
    x, y = raw(a), raw(b)
    k = d

    def one(u, v):
        u = u if isinstance(u, S) else lift(u)
        v = v if isinstance(v, S) else lift(v)
        u = S(u.re, u.im, k, u.special)
        v = S(v.re, v.im, k, v.special)
        if op == '+':
            return u + v
        if op == '-':
            return u - v
        if op == '*':
            return u * v
        if op == '/':
            return sym.s_div(u, v)
        if op == '//':
            return sym.s_floordiv(u, v)
        if op == '**':
            return sym.s_pow(u, v)
        if op == '%':
            return u - sym.s_floordiv(u, v) * v
        raise AssertionError(op)
    r = emap(one, x, y)
    if inplace is not None:
        if r.shape != inplace.shape if isinstance(r, rnp.ndarray) else False:
            raise ValueError('non-broadcastable output operand with shape %s' % (inplace.shape,))
        if isinstance(r, rnp.ndarray):
            o = obj_empty(r.shape)
            store(o, r, inplace.dtype)
            inplace.a[...] = o
        else:
            inplace.a[...] = cast(r, inplace.dtype)
        return inplace
    return wrapobj(r, d)


def store(o, r, d):
    fo, fr = o.reshape(-1), r.reshape(-1) if r.ndim else r.reshape(1)
    if o.ndim == 0:
        o[()] = cast(r[()], d)
        return
    for i in range(fr.shape[0]):
        fo[i] = conv(fr[i], d)


def emap(fn, *xs):
    "Apply fn elementwise with broadcasting; scalar result if all are scalars."
    arrs = [x for x in xs if isinstance(x, rnp.ndarray)]
    if not arrs:
        return fn(*xs)
    if len(xs) == 1 or (len(arrs) == len(xs) and all(x.shape == arrs[0].shape for x in arrs)):
        bs = list(xs)
        shape = arrs[0].shape
    else:
        ys = []
        for x in xs:
            if not isinstance(x, rnp.ndarray):
                o = obj_empty(())
                o[()] = x
                x = o
            ys.append(x)
        bs = rnp.broadcast_arrays(*ys)
        shape = bs[0].shape
    out = obj_empty(shape)
    if shape == ():
        out[()] = fn(*[b[()] if isinstance(b, rnp.ndarray) else b for b in bs])
        return out[()] if all(x.shape == () for x in arrs) else out
    ls = [b.ravel().tolist() for b in bs]
    flat = out.reshape(-1)
    for i, t in enumerate(zip(*ls)):
        flat[i] = fn(*t)
    return out


def cmpop(op, a, b):
    for x in (a, b):
        if not isinstance(x, SymArray) and lift(x) is None:
            return NotImplemented

    def one(u, v):
        u = u if isinstance(u, S) else lift(u)
        v = v if isinstance(v, S) else lift(v)
        return u._cmp(v, op)
    r = emap(one, raw(a), raw(b))
    return wrapobj(r, rnp.dtype(bool)) if isinstance(r, rnp.ndarray) else r


def fix_index(i):
    if isinstance(i, tuple):
        return tuple(fix_index(x) for x in i)
    if isinstance(i, slice):
        return slice(*[None if x is None else fix_index(x) for x in (i.start, i.stop, i.step)])
    if isinstance(i, S):
        if not sym.is_int_kind(i.kind):
            raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis '
                             '(`None`) and integer or boolean arrays are valid indices')
        return int(i)
    if isinstance(i, Ite):
        return i.force()
    if isinstance(i, SymArray):
        if i.dtype.kind == 'b':
            return rnp.array([bool(x) for x in i.a.ravel()], dtype=bool).reshape(i.shape)
        if i.dtype.kind in 'iu':
            return rnp.array([int(x) for x in i.a.ravel()], dtype=int).reshape(i.shape)
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    if isinstance(i, list):
        return [fix_index(x) for x in i]
    return i


class SymArray(object):
    __array_ufunc__ = None
    __array_priority__ = 1000.0
    __slots__ = ('a', 'dtype', '__weakref__')

    def __init__(self, a, dtype):
        self.a = a
        self.dtype = dtype

    def __setattr__(self, k, v):
        if k == 'shape':
            self.a.shape = v
            return
        object.__setattr__(self, k, v)

    # -- shape ---------------------------------------------------------
    shape = property(lambda self: self.a.shape)
    ndim = property(lambda self: self.a.ndim)
    size = property(lambda self: self.a.size)
    itemsize = property(lambda self: self.dtype.itemsize)
    nbytes = property(lambda self: self.size * self.itemsize)
    base = property(lambda self: None if self.a.base is None else SymArray(self.a.base, self.dtype))
    flags = property(lambda self: self.a.flags)
    strides = property(lambda self: self.a.strides)

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        return iter([self[i] for i in range(len(self.a))])

    def __getitem__(self, i):
        r = self.a[fix_index(i)]
        if isinstance(r, rnp.ndarray):
            return SymArray(r, self.dtype)
        return conv(r, self.dtype)

    def __setitem__(self, i, v):
        i = fix_index(i)
        if isinstance(v, (list, tuple, rnp.ndarray)):
            v = build(v) if not isinstance(v, rnp.ndarray) else to_sym(v)
        if isinstance(v, SymArray):
            if v.dtype.kind == 'c' and self.dtype.kind in 'fiu':
                # numpy discards the imaginary part with a warning
                src = emap(lambda u: conv(u.real, self.dtype), v.a)
            elif v.dtype == self.dtype:
                src = v.a
            else:
                src = emap(lambda u: conv(u, self.dtype), v.a)
            tgt = self.a[i]
            if isinstance(tgt, rnp.ndarray):
                self.a[i] = src
            else:
                if isinstance(src, rnp.ndarray):
                    if src.size != 1:
                        raise ValueError('setting an array element with a sequence.')
                    src = src.reshape(-1)[0]
                self.a[i] = src
            return
        s = v if isinstance(v, (S, bool, SymBool)) else lift(v)
        if s is None:
            raise Unsupported('storing %s in an array' % type(v).__name__)
        if isinstance(s, S) and self.dtype.kind in 'fiu' and sym.is_cplx_kind(s.kind):
            if not sym.is_np(s.kind):
                raise TypeError("can't convert complex to float")
            s = S(s.re, None, F8, s.special)      # ComplexWarning: the imaginary part is dropped
        if isinstance(s, S) and s.special and self.dtype.kind in 'iu':
            raise ValueError('cannot convert float NaN to integer')
        c = conv(s, self.dtype)
        tgt = self.a[i]
        if isinstance(tgt, rnp.ndarray):
            f = obj_empty(())
            f[()] = c
            self.a[i] = f
        else:
            self.a[i] = c

    def __bool__(self):
        if self.size == 1:
            v = self.a.reshape(-1)[0]
            return bool(v)
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. '
                         'Use a.any() or a.all()')

    def __float__(self):
        if self.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return float(self.a.reshape(-1)[0])

    def __int__(self):
        if self.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return int(self.a.reshape(-1)[0])

    def __index__(self):
        if self.ndim or self.dtype.kind not in 'iu':
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return int(self)

    def __repr__(self):
        return 'SymArray(%s, %s)' % (self.a.tolist(), self.dtype)

    def __format__(self, spec):
        return '<sym>'

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __contains__(self, v):
        return bool((self == v).any())

    # -- views and copies ------------------------------------------------
    def copy(self, order='C'):
        return SymArray(self.a.copy(), self.dtype)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def view(self, *a):
        if a and isinstance(a[0], type):
            return SymArray(self.a.view(), self.dtype)
        return SymArray(self.a.view(), self.dtype)

    def astype(self, d, order='K', casting='unsafe', subok=True, copy=True):
        d = dt(d)
        if d == self.dtype and not copy:
            return self
        if d == self.dtype:
            return self.copy()
        if d.kind in 'fiu' and self.dtype.kind == 'c':
            r = emap(lambda u: conv(u.real, d), self.a)
        else:
            r = emap(lambda u: conv(u, d), self.a)
        if not isinstance(r, rnp.ndarray):
            o = obj_empty(())
            o[()] = r
            r = o
        return SymArray(r, d)

    def reshape(self, *s, **k):
        if len(s) == 1:
            s = s[0]
        s = fix_index(s if isinstance(s, (tuple, list)) else (s,))
        return SymArray(self.a.reshape(tuple(s)), self.dtype)

    def resize(self, *s, **k):
        raise Unsupported('resize')

    def ravel(self, *a, **k):
        return SymArray(self.a.ravel(*a, **k), self.dtype)

    def flatten(self, *a):
        return SymArray(self.a.flatten(*a), self.dtype)

    def squeeze(self, axis=None):
        return SymArray(self.a.squeeze(axis), self.dtype)

    def transpose(self, *a):
        return SymArray(self.a.transpose(*a), self.dtype)

    def swapaxes(self, i, j):
        return SymArray(self.a.swapaxes(i, j), self.dtype)

    def diagonal(self, *a):
        return SymArray(self.a.diagonal(*a), self.dtype)

    def take(self, idx, axis=None):
        return SymArray(self.a.take(fix_index(idx), axis), self.dtype)

    def repeat(self, n, axis=None):
        return SymArray(self.a.repeat(n, axis), self.dtype)

    @property
    def T(self):
        return SymArray(self.a.T, self.dtype)

    @property
    def flat(self):
        return SymArray(self.a.reshape(-1), self.dtype)

    @property
    def real(self):
        if self.dtype.kind != 'c':
            return self
        d = sym.real_kind(self.dtype)
        return wrapobj(emap(lambda u: S(u.re, None, d, u.special), self.a), d)

    @property
    def imag(self):
        d = sym.real_kind(self.dtype)
        return wrapobj(emap(lambda u: S(u.im or ZERO, None, d), self.a), d)

    def conjugate(self, out=None):
        if self.dtype.kind != 'c':
            return self.copy()
        r = emap(lambda u: u.conjugate(), self.a)
        return wrapobj(r, self.dtype)

    conj = conjugate

    def fill(self, v):
        self[...] = v

    def tolist(self):
        def un(x):
            if isinstance(x, list):
                return [un(y) for y in x]
            return x.item() if isinstance(x, S) else x
        return un(self.a.tolist())

    def item(self, *i):
        r = self.a.item(*i)
        return r.item() if isinstance(r, S) else r

    # -- arithmetic ----------------------------------------------------
    def __neg__(self):
        return wrapobj(emap(lambda u: -lift(u), self.a), self.dtype)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return absolute(self)

    def __eq__(self, o):
        r = cmpop('==', self, aslike(o))
        return r if r is not NotImplemented else False

    def __ne__(self, o):
        r = cmpop('!=', self, aslike(o))
        return r if r is not NotImplemented else True

    def __invert__(self):
        return wrapobj(emap(lambda u: mkbool(f_not(fof(u))), self.a), rnp.dtype(bool))

    def __and__(self, o):
        return wrapobj(emap(lambda u, v: mkbool(f_and(fof(u), fof(v))), self.a, raw_b(o)), rnp.dtype(bool))

    def __or__(self, o):
        return wrapobj(emap(lambda u, v: mkbool(f_or(fof(u), fof(v))), self.a, raw_b(o)), rnp.dtype(bool))

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    # -- reductions ----------------------------------------------------
    def dot(self, o, out=None):
        return dot(self, o)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        return sum_(self, axis)

    def prod(self, axis=None):
        return prod(self, axis)

    def mean(self, axis=None):
        n = self.size if axis is None else self.shape[axis]
        return sum_(self, axis) / float(n)

    def max(self, axis=None, out=None):
        return amax(self, axis)

    def min(self, axis=None, out=None):
        return amin(self, axis)

    def any(self, axis=None):
        return any_(self, axis)

    def all(self, axis=None):
        return all_(self, axis)

    def argmax(self, axis=None):
        if axis is not None and self.ndim > 1:
            raise Unsupported('argmax over an axis')
        e = elems(self)
        best = 0
        for i in range(1, len(e)):
            if e[i] > e[best]:
                best = i
        return best

    def argmin(self, axis=None):
        if axis is not None and self.ndim > 1:
            raise Unsupported('argmin over an axis')
        e = elems(self)
        best = 0
        for i in range(1, len(e)):
            if e[i] < e[best]:
                best = i
        return best

    def nonzero(self):
        m = emap(lambda u: bool(u), self.a)
        return m.astype(bool).nonzero()

    def cumsum(self, axis=None):
        if axis is not None:
            r = self.copy()
            m = SymArray(rnp.moveaxis(r.a, axis, 0), r.dtype)
            for i in range(1, len(m)):
                m[i] = m[i - 1] + m[i]
            return r
        out, acc = [], None
        for x in elems(self):
            acc = x if acc is None else acc + x
            out.append(acc)
        return build(out, self.dtype)

    def trace(self):
        return sum_(self.diagonal())

    def clip(self, lo, hi):
        return minimum(maximum(self, lo), hi)

    def round(self, *a):
        raise Unsupported('round')

    def tobytes(self):
        raise Unsupported('tobytes')


def raw_b(o):
    return o.a if isinstance(o, SymArray) else o


def aslike(o):
    if isinstance(o, (list, tuple)):
        return build(o)
    if isinstance(o, rnp.ndarray) and o.dtype != OBJ:
        return to_sym(o)
    return o


def _mk(op):
    def f(self, o):
        return binop(op, self, aslike(o))

    def r(self, o):
        return binop(op, aslike(o), self)

    def i(self, o):
        return binop(op, self, aslike(o), inplace=self)
    return f, r, i


for _n, _op in (('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('floordiv', '//'),
                ('pow', '**'), ('mod', '%')):
    _f, _r, _i = _mk(_op)
    setattr(SymArray, '__%s__' % _n, _f)
    setattr(SymArray, '__r%s__' % _n, _r)
    setattr(SymArray, '__i%s__' % _n, _i)


def _mkc(op):
    return lambda self, o: cmpop(op, self, aslike(o))


for _n, _op in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')):
    setattr(SymArray, '__%s__' % _n, _mkc(_op))


# ---------------------------------------------------------------------------
# Module functions

def arr(x):
    if isinstance(x, SymArray):
        return x
    if isinstance(x, rnp.ndarray):
        return to_sym(x)
    return build(x)


def shape_of(shape):
    if isinstance(shape, (list, tuple)):
        return tuple(int(fix_index(x)) for x in shape)
    if isinstance(shape, float):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return (fix_index(shape),)


def full_(shape, v, dtype):
    o = obj_empty(shape_of(shape))
    f = obj_empty(())
    f[()] = v
    o[...] = f
    return SymArray(o, dtype)


def zeros(shape, dtype=float, order='C', **k):
    d = dt(dtype) if dtype is not None else F8
    if d == OBJ:
        return rnp.zeros(shape, dtype=object)
    return full_(shape, zero(d) if d.kind != 'b' else False, d)


def ones(shape, dtype=None, order='C', **k):
    d = dt(dtype) if dtype is not None else F8
    return full_(shape, cast(1 if False else lift(1), d) if d.kind != 'b' else True, d)


def empty(shape, dtype=float, order='C', **k):
    d = dt(dtype) if dtype is not None else F8
    if d == OBJ:
        return rnp.empty(shape, dtype=object)
    o = obj_empty(shape_of(shape))
    flat = o.reshape(-1)
    for i in range(o.size):
        flat[i] = S(sym.CTX.fresh_garbage(), None, d)
    return SymArray(o, d)


def full(shape, fill_value, dtype=None, order='C'):
    v = lift(fill_value)
    d = dt(dtype) if dtype is not None else kind_dtype(v.kind)
    return full_(shape, conv(v, d), d)


def zeros_like(a, dtype=None, order='K', subok=True, shape=None):
    a = arr(a)
    return zeros(a.shape if shape is None else shape, dtype or a.dtype)


def ones_like(a, dtype=None, order='K', subok=True, shape=None):
    a = arr(a)
    return ones(a.shape if shape is None else shape, dtype or a.dtype)


def empty_like(a, dtype=None, order='K', subok=True, shape=None):
    a = arr(a)
    return empty(a.shape if shape is None else shape, dtype or a.dtype)


def full_like(a, v, dtype=None, order='K', subok=True, shape=None):
    a = arr(a)
    return full(a.shape if shape is None else shape, v, dtype or a.dtype)


def _symbolic(x):
    if isinstance(x, (SymArray, S, SymBool, Ite)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_symbolic(y) for y in x)
    return False


def array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0):
    if dtype is not None and dt(dtype) == OBJ:
        return rnp.array(x, dtype=object)
    if isinstance(x, SymArray):
        r = x if dtype is None else x.astype(dtype, copy=False)
        r = r.copy() if copy and r is x else r
    else:
        try:
            r = build(x, None if dtype is None else dt(dtype))
        except Unsupported:
            if not _symbolic(x):
                return rnp.array(x, dtype=dtype)
            raise
    while r.ndim < ndmin:
        r = r.reshape((1,) + r.shape)
    return r


def asarray(x, dtype=None, order=None, **k):
    return array(x, dtype=dtype, copy=False)


asanyarray = ascontiguousarray = asfortranarray = asarray


def asfarray(x, dtype=float):
    return asarray(x, dtype)


def copy(x, order='K', subok=False):
    return array(x, copy=True)


def require(a, dtype=None, requirements=None):
    return asarray(a, dtype)


def atleast_1d(x):
    x = arr(x)
    return x if x.ndim else x.reshape((1,))


def atleast_2d(x):
    x = arr(x)
    return x if x.ndim >= 2 else x.reshape((1, -1))


def arange(*a, **k):
    if _symbolic(list(a)):
        a = [fix_index(x) for x in a]
    return to_sym(rnp.arange(*a, **k))


def linspace(*a, **k):
    return to_sym(rnp.linspace(*a, **k))


def eye(n, m=None, k=0, dtype=float, **kw):
    return to_sym(rnp.eye(n, m, k, dtype=dt(dtype)))


def identity(n, dtype=None):
    return eye(n, dtype=dtype or float)


def diag(v, k=0):
    v = arr(v)
    if v.ndim == 2:
        return SymArray(rnp.diagonal(v.a, k).copy(), v.dtype)
    n = v.shape[0] + abs(k)
    r = zeros((n, n), dtype=v.dtype)
    for i in range(v.shape[0]):
        r.a[i + max(-k, 0), i + max(k, 0)] = v.a[i]
    return r


def tri_(keep):
    def f(m, k=0):
        m = arr(m)
        r = m.copy()
        for i in range(m.shape[0]):
            for j in range(m.shape[1]):
                if not keep(i, j, k):
                    r.a[i, j] = zero(m.dtype)
        return r
    return f


tril = tri_(lambda i, j, k: j <= i + k)
triu = tri_(lambda i, j, k: j >= i + k)


def sumlist(ps, d):
    acc = None
    for p in ps:
        acc = p if acc is None else acc + p
    return cast(acc, d) if acc is not None else zero(d)


def _dot1(x, y, d, conj=False):
    acc = zero(d)
    for u, v in zip(x, y):
        u = S(u.re, u.im, d, u.special)
        v = S(v.re, v.im, d, v.special)
        if conj:
            u = u.conjugate()
        acc = acc + u * v
    return acc


def dot(a, b, out=None):
    if not isinstance(a, (SymArray, list, tuple, rnp.ndarray)) or \
            not isinstance(b, (SymArray, list, tuple, rnp.ndarray)):
        return a * b if lift(a) is not None or isinstance(a, SymArray) else NotImplemented
    a, b = arr(a), arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    d = rnp.result_type(a.dtype, b.dtype)
    x, y = a.a, b.a
    if a.shape[-1] != (b.shape[0] if b.ndim == 1 else b.shape[-2]):
        raise ValueError('shapes %s and %s not aligned: %d (dim %d) != %d (dim %d)'
                         % (a.shape, b.shape, a.shape[-1], a.ndim - 1,
                            b.shape[0] if b.ndim == 1 else b.shape[-2], max(b.ndim - 2, 0)))
    if a.ndim == 1 and b.ndim == 1:
        r = _dot1(x.tolist(), y.tolist(), d)
    elif a.ndim == 2 and b.ndim == 1:
        yl = y.tolist()
        o = obj_empty((a.shape[0],))
        for i in range(a.shape[0]):
            o[i] = _dot1(x[i].tolist(), yl, d)
        r = SymArray(o, d)
    elif a.ndim == 1 and b.ndim == 2:
        xl = x.tolist()
        o = obj_empty((b.shape[1],))
        for j in range(b.shape[1]):
            o[j] = _dot1(xl, y[:, j].tolist(), d)
        r = SymArray(o, d)
    elif a.ndim == 2 and b.ndim == 2:
        o = obj_empty((a.shape[0], b.shape[1]))
        for i in range(a.shape[0]):
            for j in range(b.shape[1]):
                o[i, j] = _dot1(x[i].tolist(), y[:, j].tolist(), d)
        r = SymArray(o, d)
    else:
        raise Unsupported('dot of %d-d and %d-d' % (a.ndim, b.ndim))
    if out is not None:
        out[...] = r
        return out
    return r


def matmul(a, b, out=None):
    a, b = aslike(a), aslike(b)
    if not isinstance(a, SymArray) or not isinstance(b, SymArray):
        raise ValueError('matmul: Input operand does not have enough dimensions')
    return dot(a, b, out)


def vdot(a, b):
    a, b = arr(a), arr(b)
    d = rnp.result_type(a.dtype, b.dtype)
    x, y = elems(a), elems(b)
    if len(x) != len(y):
        raise ValueError('cannot do vdot of arrays of different size')
    return _dot1(x, y, d, conj=True)


def inner(a, b):
    a, b = arr(a), arr(b)
    if a.ndim <= 1 and b.ndim <= 1:
        return dot(a, b)
    return dot(a, b.T)


def outer(a, b, out=None):
    a, b = arr(a).ravel(), arr(b).ravel()
    return a.reshape((-1, 1)) * b.reshape((1, -1))


def tensordot(a, b, axes=2):
    a, b = arr(a), arr(b)
    if isinstance(axes, int):
        ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax, bx = [[x] if isinstance(x, int) else list(x) for x in axes]
    ax, bx = [x % a.ndim for x in ax], [x % b.ndim for x in bx]
    ra, rb = [i for i in range(a.ndim) if i not in ax], [i for i in range(b.ndim) if i not in bx]
    k = 1
    for x in ax:
        k *= a.shape[x]
    m = SymArray(a.a.transpose(ra + ax).reshape(-1, k), a.dtype)
    n = SymArray(b.a.transpose(bx + rb).reshape(k, -1), b.dtype)
    s = [a.shape[i] for i in ra] + [b.shape[i] for i in rb]
    return dot(m, n).reshape(tuple(s)) if s else dot(m, n)[0, 0]


def multi_dot(xs):
    r = xs[0]
    for x in xs[1:]:
        r = dot(r, x)
    return r


def einsum(spec, *ops, **kw):
    ops = [arr(o) for o in ops]
    spec = spec.replace(' ', '')
    if '...' in spec:
        raise Unsupported('einsum with ellipsis')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        ls = ins.replace(',', '')
        out = ''.join(sorted(c for c in set(ls) if ls.count(c) == 1))
    ins = ins.split(',')
    dims = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            dims[c] = n
    d = rnp.result_type(*[o.dtype for o in ops])
    summed = [c for c in dims if c not in out]
    res = obj_empty(tuple(dims[c] for c in out))
    import itertools
    for idx in itertools.product(*[range(dims[c]) for c in out]):
        env = dict(zip(out, idx))
        acc = zero(d)
        for sidx in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, sidx))
            t = S(poly.ONE, None, d)
            for s, o in zip(ins, ops):
                t = t * o.a[tuple(env[c] for c in s)]
            acc = acc + t
        res[idx] = acc
    return wrapobj(res, d) if out else res[()]


def sum_(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if keepdims:
        r = sum_(a, axis, dtype)
        if axis is None:
            return full((1,) * arr(a).ndim, r)
        return expand_dims(r, axis)
    if isinstance(axis, tuple):
        for x in sorted((x % arr(a).ndim for x in axis), reverse=True):
            a = sum_(a, x)
        return a
    if hasattr(a, '__next__'):
        r = 0
        for x in a:
            r = r + x
        return r
    a = arr(a)
    d = a.dtype if a.dtype.kind not in 'b' else I8
    if axis is None:
        return sumlist([lift(x) for x in elems(a)], d)
    b = rnp.moveaxis(a.a, axis, 0)
    o = obj_empty(b.shape[1:])
    for i in rnp.ndindex(*b.shape[1:]):
        o[i] = sumlist([lift(x) for x in b[(slice(None),) + i].tolist()], d)
    return wrapobj(o, d) if o.ndim else o[()]


def prod(a, axis=None, **k):
    a = arr(a)
    if axis is not None:
        return multiply.reduce(a, axis)
    r = S(poly.ONE, None, a.dtype)
    for x in elems(a):
        r = r * x
    return r


def mean(a, axis=None, **k):
    return arr(a).mean(axis)


def ufunc1(fn, keep=None):
    def f(x, out=None, where=True, dtype=None, **kw):
        if isinstance(x, (list, tuple, rnp.ndarray)):
            x = arr(x)
        if isinstance(x, SymArray):
            ds = x.dtype
            rd = keep(ds) if keep else ds
            r = wrapobj(emap(lambda u: fn(S(u.re, u.im, rd if rd.kind != 'b' and (rd.kind == 'c' or ds.kind != 'c') else ds, u.special)
                                          if isinstance(u, S) else u), x.a), rd)
        else:
            s = lift(x)
            if s is None:
                if hasattr(x, 'sqrt'):
                    return x.sqrt()
                raise TypeError('unsupported operand for ufunc')
            ds = kind_dtype(s.kind)
            rd = keep(ds) if keep else ds
            r = fn(S(s.re, s.im, ds, s.special))
            if isinstance(r, S):
                r = cast(r, rd)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if not rnp.can_cast(rd, o.dtype, 'same_kind'):
                raise TypeError('Cannot cast ufunc output')
            o[...] = r
            return o
        return r
    return f


def tofloat(d):
    return d if d.kind in 'fc' else F8


sqrt = ufunc1(sym.s_sqrt, tofloat)
absolute = ufunc1(sym.s_abs, lambda d: sym.real_kind(d))
abs_ = fabs = absolute
conjugate = conj = ufunc1(lambda u: u.conjugate())
square = ufunc1(lambda u: u * u)
negative = ufunc1(lambda u: -u)
positive = ufunc1(lambda u: u)
reciprocal = ufunc1(lambda u: sym.s_div(S(poly.ONE, None, u.kind), u))
isnan = ufunc1(lambda u: u.special == 'nan', lambda d: rnp.dtype(bool))
isinf = ufunc1(lambda u: u.special in ('inf', '-inf'), lambda d: rnp.dtype(bool))
isfinite = ufunc1(lambda u: u.special is None, lambda d: rnp.dtype(bool))
logical_not = ufunc1(lambda u: mkbool(f_not(fof(u if not isinstance(u, S) else u != 0))), lambda d: rnp.dtype(bool))


def _sign1(u):
    if u.special:
        return S(Poly.const({'inf': 1, '-inf': -1}.get(u.special, 0)), None, u.kind,
                 'nan' if u.special == 'nan' else None)
    return S(Poly.const(sym.sign_of(u)), None, u.kind)


sign = ufunc1(_sign1)


def real(x):
    if isinstance(x, (list, tuple)):
        x = arr(x)
    if isinstance(x, (SymArray, S)):
        return x.real
    return rnp.real(x)


def imag(x):
    if isinstance(x, (list, tuple)):
        x = arr(x)
    if isinstance(x, (SymArray, S)):
        return x.imag
    return rnp.imag(x)


def ufunc2(op):
    def f(a, b, out=None, where=True, dtype=None, **kw):
        if where is not True:
            raise Unsupported('ufunc where=')
        a, b = aslike(a), aslike(b)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            r = binop(op, a, b)
            d = r.dtype if hasattr(r, 'dtype') else F8
            if not rnp.can_cast(d, o.dtype, 'same_kind'):
                raise TypeError('Cannot cast ufunc output')
            if isinstance(r, SymArray) and r.shape != o.shape:
                raise ValueError('non-broadcastable output operand')
            o[...] = r
            return o
        if not isinstance(a, SymArray) and not isinstance(b, SymArray):
            x, y = lift(a), lift(b)
            if x is None or y is None:
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b,
                        '/': lambda: a / b}[op]()
            x, y = cast(x, kind_dtype(x.kind)), cast(y, kind_dtype(y.kind))
            return binop(op, x, y)
        return binop(op, a, b)
    f.outer = lambda x, y: f(reshape(x, arr(x).shape + (1,) * arr(y).ndim), arr(y))

    def reduce(x, axis=0, dtype=None, out=None, keepdims=False, initial=None):
        x = arr(x)
        if axis is None:
            x, axis = x.ravel(), 0
        acc = initial
        for i in range(x.shape[axis]):
            y = SymArray(rnp.moveaxis(x.a, axis, 0), x.dtype)[i]
            acc = y if acc is None else f(acc, y)
        if acc is None:
            raise ValueError('reduction of an empty array')
        return acc

    def accumulate(x, axis=0, dtype=None, out=None):
        x = arr(x)
        o, acc = x.copy(), None
        for i in range(x.shape[0]):
            acc = x[i] if acc is None else f(acc, x[i])
            o[i] = acc
        return o

    def at(x, idx, *b):
        ii = rnp.arange(x.size).reshape(x.shape)[fix_index(idx)]
        flat = rnp.unravel_index(rnp.ravel(ii), x.shape)
        b = arr(b[0]) if not rnp.isscalar(b[0]) and not isinstance(b[0], S) else b[0]
        if isinstance(b, SymArray):
            b = broadcast_to(b, rnp.shape(ii)).ravel()
        for n, k in enumerate(zip(*flat)):
            x[k] = f(x[k], b[n] if isinstance(b, SymArray) else b)
    f.reduce, f.accumulate, f.at = reduce, accumulate, at
    return f


add, subtract, multiply = ufunc2('+'), ufunc2('-'), ufunc2('*')
divide = true_divide = ufunc2('/')
floor_divide, power, mod = ufunc2('//'), ufunc2('**'), ufunc2('%')
remainder = mod


def _cmpf(op):
    def f(a, b, **k):
        return cmpop(op, aslike(a), aslike(b))
    return f


less, less_equal, greater, greater_equal, equal, not_equal = [
    _cmpf(o) for o in ('<', '<=', '>', '>=', '==', '!=')]


def _pair(fn):
    def f(a, b, out=None, **k):
        a, b = aslike(a), aslike(b)
        d = value_result(a, b)
        r = emap(lambda u, v: fn(S(lift(u).re, lift(u).im, d, lift(u).special),
                                 S(lift(v).re, lift(v).im, d, lift(v).special)), raw(a), raw(b))
        r = wrapobj(r, d)
        if out is not None:
            out[...] = r
            return out
        return r
    return f


maximum = fmax = _pair(sym.merge_max)
minimum = fmin = _pair(sym.merge_min)
hypot = _pair(lambda u, v: sym.s_sqrt(_nn(u * u + v * v)))


def _nn(s):
    s.re.nn = True
    return s


def _copysign(u, v):
    a = sym.s_abs(u)
    if v.special:
        return a
    return -a if bool(v < 0) else a


copysign = _pair(_copysign)


def logical_and(a, b):
    if isinstance(a, SymArray) or isinstance(b, SymArray):
        return wrapobj(emap(lambda u, v: mkbool(f_and(fof(u), fof(v))), raw_b(a), raw_b(b)), rnp.dtype(bool))
    return mkbool(f_and(fof(a), fof(b)))


def logical_or(a, b):
    if isinstance(a, SymArray) or isinstance(b, SymArray):
        return wrapobj(emap(lambda u, v: mkbool(f_or(fof(u), fof(v))), raw_b(a), raw_b(b)), rnp.dtype(bool))
    return mkbool(f_or(fof(a), fof(b)))


def any_(a, axis=None, **k):
    if isinstance(a, (bool, SymBool)):
        return a
    if hasattr(a, '__next__'):
        a = list(a)
    if axis is not None and arr(a).ndim > 1:
        raise Unsupported('any/all over an axis')
    e = elems(arr(a))
    return mkbool(f_or(*[fof(x if not isinstance(x, S) else x != 0) for x in e]))


def all_(a, axis=None, **k):
    if isinstance(a, (bool, SymBool)):
        return a
    if hasattr(a, '__next__'):
        a = list(a)
    if axis is not None and arr(a).ndim > 1:
        raise Unsupported('any/all over an axis')
    e = elems(arr(a))
    return mkbool(f_and(*[fof(x if not isinstance(x, S) else x != 0) for x in e]))


def over_axis(fn, a, axis, keepdims=False):
    "the reduction fn of vectors along an axis"
    m = SymArray(rnp.moveaxis(a.a, axis, 0), a.dtype)
    if m.ndim == 1:
        r = fn(m)
    else:
        r = array([fn(m[(slice(None),) + i]) for i in rnp.ndindex(*m.shape[1:])]).reshape(m.shape[1:])
    return expand_dims(r, axis) if keepdims else r


def amax(a, axis=None, **k):
    a = arr(a)
    if axis is not None:
        return over_axis(amax, a, axis)
    e = elems(a)
    if not e:
        raise ValueError('zero-size array to reduction operation maximum which has no identity')
    r = e[0]
    for x in e[1:]:
        r = sym.merge_max(r, x)
    return cast(r, a.dtype)


def amin(a, axis=None, **k):
    a = arr(a)
    if axis is not None:
        return over_axis(amin, a, axis)
    e = elems(a)
    if not e:
        raise ValueError('zero-size array to reduction operation minimum which has no identity')
    r = e[0]
    for x in e[1:]:
        r = sym.merge_min(r, x)
    return cast(r, a.dtype)


def where(c, x=None, y=None):
    if x is None:
        return arr(c).nonzero()
    c, x, y = aslike(c), aslike(x), aslike(y)
    d = value_result(x, y)
    r = emap(lambda b, u, v: (u if bool(b) else v), raw_b(c), raw(x), raw(y))
    return wrapobj(emap(lambda u: conv(lift(u), d), r) if isinstance(r, rnp.ndarray) else r, d)


def count_nonzero(a, axis=None):
    if axis is not None and arr(a).ndim > 1:
        raise Unsupported('count_nonzero over an axis')
    return sum(1 for x in elems(arr(a)) if bool(x != 0))


def nonzero(a):
    return arr(a).nonzero()


def flatnonzero(a):
    return arr(a).ravel().nonzero()[0]


def concatenate(xs, axis=0, out=None, **k):
    xs = [arr(x) for x in xs]
    d = rnp.result_type(*[x.dtype for x in xs])
    return SymArray(rnp.concatenate([x.astype(d, copy=False).a for x in xs], axis), d)


def hstack(xs):
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def vstack(xs):
    return concatenate([atleast_2d(x) for x in xs], 0)


def stack(xs, axis=0):
    xs = [arr(x) for x in xs]
    d = rnp.result_type(*[x.dtype for x in xs])
    return SymArray(rnp.stack([x.astype(d, copy=False).a for x in xs], axis), d)


def column_stack(xs):
    return concatenate([arr(x).reshape((-1, 1)) if arr(x).ndim == 1 else x for x in xs], 1)


def append(a, v, axis=None):
    a, v = arr(a), arr(v)
    if axis is None:
        return concatenate([a.ravel(), v.ravel()])
    return concatenate([a, v], axis)


def split(a, n, axis=0):
    a = arr(a)
    return [SymArray(x, a.dtype) for x in rnp.split(a.a, n, axis)]


def array_split(a, n, axis=0):
    a = arr(a)
    return [SymArray(x, a.dtype) for x in rnp.array_split(a.a, n, axis)]


def hsplit(a, n):
    return split(a, n, 0 if arr(a).ndim == 1 else 1)


def vsplit(a, n):
    return split(a, n, 0)


def _moved(name):
    "functions that only move elements about"
    fn = getattr(rnp, name)

    def f(a, *b, **k):
        a = arr(a)
        b = [fix_index(x) if not isinstance(x, (str, type(None))) else x for x in b]
        r = fn(a.a, *b, **k)
        return wrapobj(r, a.dtype)
    return f


flip, fliplr, flipud, rot90, expand_dims, moveaxis, rollaxis, broadcast_to, delete, diagonal = [
    _moved(_k) for _k in ('flip fliplr flipud rot90 expand_dims moveaxis rollaxis broadcast_to delete '
                          'diagonal').split()]


def take(a, idx, axis=None, out=None, mode='raise'):
    a = arr(a)
    return wrapobj(rnp.take(a.a, fix_index(idx), axis), a.dtype)


def put(a, idx, v, mode='raise'):
    f, v = a.flat, arr(v).ravel()
    for n, i in enumerate(rnp.ravel(fix_index(idx))):
        k = rnp.unravel_index(int(i), a.shape)
        a[k] = v[n % v.size]


def insert(a, i, v, axis=None):
    a, v = arr(a), arr(v)
    d = rnp.result_type(a.dtype)
    return SymArray(rnp.insert(a.a, fix_index(i), conv_array(v, d), axis), d)


def conv_array(v, d):
    return emap(lambda u: conv(u, d), v.a)


def diff(a, n=1, axis=-1):
    a = arr(a)
    for _ in range(n):
        m = rnp.moveaxis(a.a, axis, -1)
        a = SymArray(rnp.moveaxis(m[..., 1:], -1, axis), a.dtype) - SymArray(rnp.moveaxis(m[..., :-1], -1, axis),
                                                                              a.dtype)
    return a


def kron(a, b):
    a, b = arr(a), arr(b)
    if a.ndim == 1 and b.ndim == 1:
        return multiply.outer(a, b).ravel()
    a, b = atleast_2d(a), atleast_2d(b)
    r = multiply.outer(a, b)
    return SymArray(r.a.transpose(0, 2, 1, 3).reshape(a.shape[0] * b.shape[0], -1), r.dtype)


def block(rows):
    if not isinstance(rows, list):
        return arr(rows)
    if not isinstance(rows[0], list):
        return hstack([atleast_1d(x) for x in rows])
    return vstack([hstack([atleast_2d(x) for x in r]) for r in rows])


def bincount(x, weights=None, minlength=0):
    x = [int(i) for i in fix_index(arr(x) if not isinstance(x, rnp.ndarray) else x)]
    n = max([minlength] + [i + 1 for i in x])
    if weights is None:
        return to_sym(rnp.bincount(rnp.array(x), minlength=n))
    o, w = zeros(n), arr(weights)
    if w.dtype.kind == 'c':
        raise TypeError('Cannot cast array data from complex to float')
    for k, i in enumerate(x):
        o[i] = o[i] + w[k]
    return o


def fromiter(it, dtype, count=-1):
    return array(list(it), dtype)


def cumprod(a, axis=None):
    a = arr(a).ravel()
    return multiply.accumulate(a)


def fill_diagonal(a, v, wrap=False):
    v = v if rnp.isscalar(v) or isinstance(v, S) else arr(v).ravel()
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = v[i % v.size] if isinstance(v, SymArray) else v


def logical_xor(a, b):
    return logical_or(logical_and(a, logical_not(b)), logical_and(logical_not(a), b))


def apply_along_axis(fn, axis, a, *b, **k):
    a = arr(a)
    m = SymArray(rnp.moveaxis(a.a, axis, 0), a.dtype)
    if m.ndim == 1:
        return fn(m, *b, **k)
    r = [fn(m[(slice(None),) + i], *b, **k) for i in rnp.ndindex(*m.shape[1:])]
    o = stack([arr(x) for x in r], -1)
    o = o.reshape(o.shape[:-1] + m.shape[1:])
    return SymArray(rnp.moveaxis(o.a, 0, axis), o.dtype) if arr(r[0]).ndim else o


def tile(a, reps):
    a = arr(a)
    return SymArray(rnp.tile(a.a, reps), a.dtype)


def repeat(a, n, axis=None):
    return arr(a).repeat(n, axis)


def roll(a, k, axis=None):
    a = arr(a)
    return SymArray(rnp.roll(a.a, k, axis), a.dtype)


def reshape(a, s, order='C'):
    return arr(a).reshape(s)


def ravel(a, order='C'):
    return arr(a).ravel()


def squeeze(a, axis=None):
    return arr(a).squeeze(axis)


def transpose(a, axes=None):
    return arr(a).transpose(*([axes] if axes else []))


def swapaxes(a, i, j):
    return arr(a).swapaxes(i, j)


def shape(a):
    return a.shape if hasattr(a, 'shape') else arr(a).shape


def ndim(a):
    return a.ndim if hasattr(a, 'ndim') else arr(a).ndim


def size(a, axis=None):
    a = arr(a)
    return a.size if axis is None else a.shape[axis]


def isscalar(x):
    return isinstance(x, (S, SymBool, Ite)) or rnp.isscalar(x)


def iscomplexobj(x):
    if isinstance(x, (SymArray,)):
        return x.dtype.kind == 'c'
    if isinstance(x, S):
        return sym.is_cplx_kind(x.kind)
    return rnp.iscomplexobj(x)


def isrealobj(x):
    return not iscomplexobj(x)


def iscomplex(x):
    return imag(x) != 0


def isreal(x):
    return imag(x) == 0


def ndenumerate(a):
    for i in rnp.ndindex(*a.shape):
        yield i, a[i]


def copyto(dst, src, casting='same_kind', where=True):
    s = aslike(src)
    d = s.dtype if isinstance(s, SymArray) else kind_dtype(lift(s).kind)
    if isinstance(s, SymArray) and not rnp.can_cast(d, dst.dtype, casting):
        raise TypeError('Cannot cast array data')
    dst[...] = s


def shares_memory(a, b, *k):
    return rnp.shares_memory(a.a, b.a) if isinstance(a, SymArray) and isinstance(b, SymArray) else False


may_share_memory = shares_memory


def argtype(x):
    if isinstance(x, SymArray):
        # value-based casting treats 0-d arrays as scalars
        return rnp.empty((1,) if x.ndim else (), x.dtype)
    if isinstance(x, S):
        if sym.is_np(x.kind):
            return x.kind.type(1)
        return {sym.PYI: 1, sym.PYF: 1.0, sym.PYC: 1j}[x.kind]
    if isinstance(x, type) and x in KINDTYPES:
        return KINDTYPES[x]
    return x


def result_type(*xs):
    return rnp.result_type(*[argtype(x) for x in xs])


def promote_types(a, b):
    return rnp.promote_types(dt(a), dt(b))


def can_cast(a, b, casting='safe'):
    return rnp.can_cast(argtype(a), dt(b), casting)


def common_type(*xs):
    return rnp.common_type(*[rnp.empty(0, x.dtype) for x in xs])


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = aslike(a), aslike(b)
    return bool(all_(absolute(a - b) <= atol + rtol * absolute(b)))


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = aslike(a), aslike(b)
    return absolute(a - b) <= atol + rtol * absolute(b)


def array_equal(a, b, **k):
    a, b = arr(a), arr(b)
    if a.shape != b.shape:
        return False
    return bool(all_(a == b))


def trace(a):
    return arr(a).trace()


def cumsum(a, axis=None):
    return arr(a).cumsum(axis)


def clip(a, lo, hi, out=None):
    return arr(a).clip(lo, hi)


def nan_to_num(x, *a, **k):
    raise Unsupported('nan_to_num')


def vectorize(fn, *a, **k):
    return lambda *xs: wrapobj(emap(fn, *[raw(aslike(x)) for x in xs]), F8)


# -- linalg -----------------------------------------------------------------

def norm(x, ord=None, axis=None, keepdims=False):
    if hasattr(x, 'norm') and not isinstance(x, SymArray):
        return x.norm()
    x = arr(x)
    d = tofloat(sym.real_kind(x.dtype))
    if axis is not None and not (x.ndim == 1 and axis in (0, -1)):
        return over_axis(lambda v: norm(v, ord), x, axis, keepdims)
    if ord in (None, 2, 'fro') and (x.ndim == 1 or ord != 2):
        acc = S(ZERO, None, d)
        for u in elems(x):
            if u.special:
                acc = acc + S(ZERO, None, d, 'nan' if u.special == 'nan' else 'inf')
                continue
            t = sym.pmul(u.re, u.re)
            t.nn = True
            if u.im is not None:
                t2 = sym.pmul(u.im, u.im)
                t2.nn = True
                t = t + t2
            acc = acc + S(t, None, d)
        if acc.special:
            return acc
        return S(poly.sqrt_poly(sym.nn(acc.re)), None, d)
    if x.ndim == 1 and ord == 1:
        return sum_(absolute(x))
    if x.ndim == 1 and ord == rnp.inf:
        return amax(absolute(x))
    if x.ndim == 2 and ord == 1:
        return amax(sum_(absolute(x), 0))
    if x.ndim == 2 and ord == rnp.inf:
        return amax(sum_(absolute(x), 1))
    raise Unsupported('norm ord=%r' % (ord,))


def det_poly(M):
    "determinant of a list-of-lists of S"
    n = len(M)
    if n == 0:
        return S(poly.ONE, None, F8)
    if n == 1:
        return M[0][0]
    acc = None
    for j in range(n):
        if M[0][j].re.is_zero() and M[0][j].im is None:
            continue
        sub = [r[:j] + r[j + 1:] for r in M[1:]]
        t = M[0][j] * det_poly(sub)
        t = t if j % 2 == 0 else -t
        acc = t if acc is None else acc + t
    return acc if acc is not None else S(ZERO, None, M[0][0].kind)


def solve(A, b):
    A, b = arr(A), arr(b)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise LinAlgError('Last 2 dimensions of the array must be square')
    d = tofloat(rnp.result_type(A.dtype, b.dtype))
    n = A.shape[0]
    M = [[S(u.re, u.im, d, u.special) for u in r] for r in A.a.tolist()]
    if any(u.special for r in M for u in r):
        return full_(b.shape, S(ZERO, None, d, 'nan'), d)
    # name the entries so that the minors stay readable
    M = [[S(sym.named(u.re), sym.named(u.im) if u.im is not None else None, d) for u in r] for r in M]
    D = det_poly(M)
    if sym.CTX.decide_zero(sym.fof(D == 0)):
        raise LinAlgError('Singular matrix')
    cols = [b.a] if b.ndim == 1 else [b.a[:, j] for j in range(b.shape[1])]
    outs = []
    for c in cols:
        rhs = [S(sym.named(u.re), sym.named(u.im) if u.im is not None else None, d) for u in c.tolist()]
        xs = []
        for j in range(n):
            Mj = [r[:j] + [rhs[i]] + r[j + 1:] for i, r in enumerate(M)]
            xs.append(sym.s_div(det_poly(Mj), D))
        outs.append(xs)
    if b.ndim == 1:
        return build(outs[0], d)
    return build([[outs[j][i] for j in range(len(outs))] for i in range(n)], d)


def inv(A):
    A = arr(A)
    return solve(A, eye(A.shape[0], dtype=tofloat(A.dtype)))


def det(A):
    A = arr(A)
    return det_poly([list(r) for r in A.a.tolist()])


LinAlgError = rnp.linalg.LinAlgError


class ShimModule(types.ModuleType):
    "Falls back to the real module for what is not array computation."
    def __init__(self, name, real, table):
        super().__init__(name)
        self.__dict__.update(table)
        self.__dict__['_real'] = real

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        v = getattr(self._real, k)
        if isinstance(v, types.ModuleType):
            return v
        if isinstance(v, type) or not callable(v):
            return v
        return guard(k, v)


def concrete(x):
    "the numpy array of the same values, where they are constants"
    if isinstance(x, (list, tuple)):
        return type(x)(concrete(y) for y in x)
    if isinstance(x, SymArray) and x.dtype.kind in 'biuf':
        e = [lift(v) if not isinstance(v, (bool, rnp.bool_)) else v for v in elems(x)]
        if all(isinstance(v, (bool, rnp.bool_)) or v is not None and not v.special and v.im is None and
               v.re.is_const() for v in e):
            return rnp.array([v if isinstance(v, (bool, rnp.bool_)) else float(v.re.constval()) if x.dtype.kind == "f" else int(v.re.constval()) for v in e],
                             dtype=x.dtype).reshape(x.shape)
    return x


def guard(name, fn):
    "A real numpy function may be used on concrete data only."
    def f(*a, **k):
        a, k = [concrete(x) for x in a], {n: concrete(x) for n, x in k.items()}
        if any(_symbolic(x) for x in a) or any(_symbolic(x) for x in k.values()):
            raise Unsupported('numpy.%s' % name)
        r = fn(*a, **k)
        if isinstance(r, rnp.ndarray) and r.dtype != OBJ:
            return to_sym(r)
        return r
    return f


class RandomShim(object):
    "numpy.random: arbitrary values of the documented range."
    def seed(self, *a, **k):
        return None

    def _val(self, lo, hi):
        return S(sym.CTX.var('rand', lo=lo, hi=hi), None, F8)

    def random(self, size=None):
        if size is None:
            return S(sym.CTX.var('rand', lo=0, hi=1), None, sym.PYF)
        shp = shape_of(size)
        o = obj_empty(shp)
        flat = o.reshape(-1)
        for i in range(o.size):
            flat[i] = self._val(0, 1)
        return SymArray(o, F8)

    random_sample = ranf = sample = random

    def rand(self, *shape):
        return self.random(shape or None)

    def randn(self, *shape):
        o = obj_empty(shape)
        flat = o.reshape(-1)
        for i in range(o.size):
            flat[i] = self._val(None, None)
        return SymArray(o, F8)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)

    def standard_normal(self, size=None):
        return self.randn(*shape_of(size))

    def get_state(self):
        return None

    def set_state(self, s):
        return None

    def RandomState(self, *a):
        return self

    default_rng = RandomState


def make_numpy():
    g = globals()
    table = {}
    for k in ('zeros ones empty full zeros_like ones_like empty_like full_like array asarray asanyarray '
              'ascontiguousarray asfortranarray asfarray copy require atleast_1d atleast_2d arange linspace eye identity diag tril '
              'triu dot matmul vdot inner outer tensordot einsum prod mean sqrt absolute fabs conjugate conj '
              'square negative positive reciprocal isnan isinf isfinite sign real imag add subtract multiply '
              'divide true_divide floor_divide power mod remainder less less_equal greater greater_equal equal '
              'not_equal maximum fmax minimum fmin hypot copysign logical_and logical_or logical_not where '
              'count_nonzero nonzero flatnonzero concatenate hstack vstack stack column_stack append split array_split tile '
              'repeat roll reshape ravel squeeze transpose swapaxes shape ndim size isscalar iscomplexobj '
              'isrealobj iscomplex isreal ndenumerate copyto shares_memory may_share_memory result_type '
              'promote_types can_cast common_type allclose isclose array_equal trace cumsum clip nan_to_num '
              'amax amin vectorize hsplit vsplit flip fliplr flipud rot90 expand_dims moveaxis rollaxis '
              'broadcast_to delete diagonal take put insert diff kron block bincount fromiter cumprod '
              'fill_diagonal logical_xor apply_along_axis').split():
        table[k] = g[k]
    table.update(sum=sum_, any=any_, all=all_, abs=absolute, max=amax, min=amin, ndarray=SymArray)
    lin = ShimModule('numpy.linalg', rnp.linalg, dict(norm=norm, solve=solve, inv=inv, det=det, multi_dot=multi_dot,
                                                      LinAlgError=LinAlgError))
    table['linalg'] = lin
    table['random'] = RandomShim()
    # Python-2 style aliases removed from newer numpy, present in the one used here
    table.update(float=float, int=int, complex=complex, bool=bool, object=object)
    return ShimModule('numpy', rnp, table), lin


NUMPY, LINALG = make_numpy()
