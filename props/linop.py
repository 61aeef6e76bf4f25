"""Linear operators: transposes, algebra, types, reduction, coordinates, counters."""
from ._util import *

MODS = ['pykrylov.linop']


# --------------------------------------------------------------- sources of operators

def source(h, kind, dtype, m=2, n=2, tag='A'):
    "an operator built in one of the ways the package offers, and its matrix"
    np = h.np
    L = LO(h)
    if kind in ('both', 'T', 'H'):
        A = h.mat(tag, m, n, dtype)
        return wrap(h, A, kind), A
    if kind in ('sym', 'symH'):
        A = h.mat(tag, n, n, dtype, 'sym')
        return wrap(h, A, kind), A
    if kind in ('herm', 'hermT'):
        A = h.mat(tag, n, n, dtype, 'herm')
        return wrap(h, A, kind), A
    if kind == 'symherm':
        A = h.mat(tag, n, n, 'd', 'sym').astype('complex128' if dtype == 'D' else 'float64')
        return wrap(h, A, kind), A
    if kind == 'ndarray':
        A = h.mat(tag, m, n, dtype)
        return L.linop_from_ndarray(A), A
    if kind == 'ndarray_sym':
        A = h.mat(tag, n, n, dtype, 'sym')
        return L.linop_from_ndarray(A, symmetric=True), A
    if kind == 'ndarray_herm':
        A = h.mat(tag, n, n, dtype, 'herm')
        return L.linop_from_ndarray(A, symmetric=(dtype != 'D'), hermitian=True), A
    if kind == 'diag':
        d = h.vec(tag + 'd', n, dtype)
        return L.DiagonalOperator(d), np.diag(d)
    if kind == 'ident':
        A = np.eye(n)
        if dtype == 'D':
            A = A.astype('complex128')
        return L.IdentityOperator(n, dtype=A.dtype), A
    if kind == 'zero':
        A = h.zeros((m, n), dtype)
        return L.ZeroOperator(n, m, dtype=A.dtype), A
    if kind == 'reduced':
        # all rows and columns, in another order
        A = h.mat(tag, m, n, dtype)
        return L.ReducedLinearOperator(L.linop_from_ndarray(A), list(range(m))[::-1], list(range(n))[::-1]), A[::-1, ::-1]
    if kind == 'symreduced':
        A = h.mat(tag, n, n, dtype, 'sym')
        return L.SymmetricallyReducedLinearOperator(L.linop_from_ndarray(A, symmetric=True), list(range(n))[::-1]), A[::-1, ::-1]
    if kind == 'coord':
        A = h.zeros((m, n), dtype)
        vals, rows, cols = [], [], []
        for i in range(m):
            for j in range(n):
                v = h.scalar('%s%d%d' % (tag, i, j), dtype)
                A[i, j] = v
                vals.append(v)
                rows.append(i)
                cols.append(j)
        return L.CoordLinearOperator(h.array(vals, dtype), np.array(rows), np.array(cols), n, m), A
    if kind == 'coord_sym':
        A = h.mat(tag, n, n, dtype, 'sym')
        vals, rows, cols = [], [], []
        for i in range(n):
            for j in range(i + 1):
                vals.append(A[i, j])
                rows.append(i)
                cols.append(j)
        return L.CoordLinearOperator(h.array(vals, dtype), np.array(rows), np.array(cols), n, n,
                                     symmetric=True), A
    if kind in ('pysparse', 'pysparse_sym', 'pysparse_old', 'pysparse_method'):
        A = h.mat(tag, m, n, 'd', 'sym' if kind == 'pysparse_sym' else 'full')

        class Sparse(object):
            "the interface PysparseLinearOperator relies on"
            __array_ufunc__ = None
            shape = (m, n)
            issym = kind == 'pysparse_sym'

        class New(Sparse):
            def __mul__(self, x):
                return np.dot(A, x)

            def __rmul__(self, y):
                return np.dot(A.T, y)

        class Old(Sparse):
            def matvec(self, x, y):
                y[:] = np.dot(A, x)

            def matvec_transp(self, x, y):
                y[:] = np.dot(A.T, x)

        class Method(New):
            "symmetry is asked of a method"
            @property
            def issym(self):
                raise AttributeError('issym')

            def isSymmetric(self):
                return False
        return L.PysparseLinearOperator(dict(pysparse_old=Old, pysparse_method=Method).get(kind, New)()), A
    raise KeyError(kind)


REAL = ['both', 'T', 'H', 'sym', 'herm', 'symherm', 'ndarray', 'ndarray_sym', 'ndarray_herm', 'diag', 'ident',
        'zero', 'coord', 'coord_sym', 'pysparse', 'pysparse_sym', 'pysparse_old', 'pysparse_method']
CPLX = ['both', 'T', 'H', 'sym', 'symH', 'herm', 'hermT', 'symherm', 'ndarray', 'ndarray_sym', 'ndarray_herm',
        'diag', 'ident', 'zero']
SQUARE = ('sym', 'symH', 'herm', 'hermT', 'symherm', 'ndarray_sym', 'ndarray_herm', 'diag', 'ident',
          'coord_sym', 'pysparse_sym')


def sources(tier, both=True):
    for dtype, kinds in (('d', REAL), ('D', CPLX)):
        for k in kinds:
            sizes = [(2, 2)] if k in SQUARE else [(2, 3)]
            if tier == 'thorough':
                sizes += [(3, 3)] if k in SQUARE else [(3, 2), (1, 3), (4, 3)]
            for m, n in sizes:
                yield k, dtype, m, n


# ------------------------------------------------------------------------ L01 transpose

def t_transpose(h, kind, dtype, m, n):
    np = h.np
    op, A = source(h, kind, dtype, m, n)
    m, n = A.shape
    x, y = h.vec('x', n, dtype), h.vec('y', m, dtype)
    h.eq('A x', op * x, np.dot(A, x))
    h.eq('A(x)', op(x), np.dot(A, x))
    h.claim('has T', op.T is not None)
    h.claim('has H', op.H is not None)
    h.eq('A.T y', op.T * y, np.dot(A.T, y))
    h.eq('A.H y', op.H * y, np.dot(A.T.conj(), y))
    h.eq('rmatvec', op.rmatvec(y), np.dot(A.T.conj(), y))
    h.eq('conj(A) x', op.bar * x, np.dot(A.conj(), x))
    h.eq('<A x, y> = <x, A.H y>', np.vdot(op * x, y), np.vdot(x, op.H * y))
    # a real vector through a complex operator, and the reverse
    w = h.vec('w', m, 'd' if dtype == 'D' else 'D')
    if dtype == 'D' or not kind.startswith('pysparse'):
        h.eq('rmatvec w', op.rmatvec(w), np.dot(A.T.conj(), w))
        h.eq('A.T w', op.T * w, np.dot(A.T, w))
        h.eq('A.H w', op.H * w, np.dot(A.T.conj(), w))
        z = h.vec('z', n, 'd' if dtype == 'D' else 'D')
        h.eq('A z', op * z, np.dot(A, z))
        h.eq('conj(A) z', op.bar * z, np.dot(A.conj(), z))


def t_override(h, kind, dtype):
    "the special operators cannot be made anything else by keywords"
    np = h.np
    L = LO(h)
    n = 2
    kw = dict(matvec=lambda x: 3 * x)
    if kind == 'ident':
        A = np.eye(n).astype('complex128' if dtype == 'D' else 'float64')
        op = L.IdentityOperator(n, symmetric=False, dtype=A.dtype, **kw)
    elif kind == 'diag':
        d = h.vec('d', n, dtype)
        A = np.diag(d)
        op = L.DiagonalOperator(d, symmetric=False, hermitian=dtype == 'D', dtype=np.int64, matvec_adj=lambda x: 5 * x, **kw)
    else:
        A = h.zeros((3, n), dtype)
        op = L.ZeroOperator(n, 3, matvec_transp=lambda x: x[:2], dtype=A.dtype, **kw)
    x, y = h.vec('x', n, dtype), h.vec('y', A.shape[0], dtype)
    h.eq('A x', op * x, np.dot(A, x))
    h.eq('A.T y', op.T * y, np.dot(A.T, y))
    h.eq('A.H y', op.H * y, np.dot(A.T.conj(), y))
    h.eq('conj(A) x', op.bar * x, np.dot(A.conj(), x))
    h.claim('type', op.dtype == A.dtype)


@prop('L01', MODS)
def l01(tier):
    for k in ('ident', 'diag', 'zero'):
        for dt in 'dD':
            yield Case('%s %s with keywords' % (k, dt), t_override, bound='size 2', kind=k, dtype=dt)
    for k, dt, m, n in sources(tier):
        yield Case('%s %s %dx%d' % (k, dt, m, n), t_transpose, bound='operators up to 4x3, all entries symbolic',
                   kind=k, dtype=dt, m=m, n=n)


# ------------------------------------------------------------------------ L02 involution

def words(n):
    out = ['']
    cur = ['']
    for _ in range(n):
        cur = [w + c for w in cur for c in 'THC']
        out += cur
    return out


def t_words(h, kind, dtype, m, n, depth):
    np = h.np
    op, A = source(h, kind, dtype, m, n)
    h.claim('T.T', op.T.T is op)
    h.claim('H.H', op.H.H is op)
    for w in words(depth):
        o, M = word(h, op, A, w)
        h.claim('operator A.%s exists' % '.'.join(w), o is not None)
        if o is None:
            continue
        apply(h, 'A.%s' % '.'.join(w), o, M, 'v_' + w, 'd' if kind.startswith('pysparse') else None)
        h.claim('A.%s shape' % '.'.join(w), (o.nargout, o.nargin) == M.shape and o.shape == M.shape)


def t_bare(h, dtype, m, n):
    "an operator of which only products are known: its conjugate is known too, its transpose and adjoint are not"
    np = h.np
    A = h.mat('A', m, n, dtype)
    op = wrap(h, A, 'none')
    h.claim('no transpose', op.T is None)
    h.claim('no adjoint', op.H is None)
    apply(h, 'A', op, A, 'v')
    apply(h, 'conj A', op.bar, A.conj(), 'w')
    apply(h, 'conj conj A', op.bar.bar, A, 'x')
    apply(h, 'conj', op.conjugate(), A.conj(), 'z')
    h.claim('no transpose of the conjugate', op.bar.T is None and op.bar.H is None)


@prop('L02', MODS)
def l02(tier):
    for dt in 'dD':
        yield Case('bare %s' % dt, t_bare, bound='2x3', dtype=dt, m=2, n=3)
    for k, dt, m, n in sources(tier):
        d = 3 if tier == 'quick' else 4
        yield Case('%s %s %dx%d' % (k, dt, m, n), t_words,
                   bound='every word of up to 4 transposes, adjoints and conjugates', kind=k, dtype=dt, m=m, n=n, depth=d)


# --------------------------------------------------------------------------- L03 algebra

def leaf(h, spec, tag, m, n):
    kind, dtype = spec
    return source(h, kind, dtype, m, n, tag)


def scal(h, t, name='s'):
    if t == 'i':
        return h.int(name, -3, 3)
    if t == 'i2':
        return 2
    if t == 'npd':
        return h.npscalar(h.real(name), 'd')
    if t == 'npD':
        return h.npscalar(h.cplx(h.real(name + 'r'), h.real(name + 'i')), 'D')
    if t == 'D':
        return h.cplx(h.real(name + 'r'), h.real(name + 'i'))
    return h.real(name)


def check_all(h, label, op, M, deep=True):
    "action, transpose, adjoint and conjugate of a derived operator"
    for w in ('', 'T', 'H', 'C') + (('TT', 'HH', 'TH', 'HT') if deep else ()):
        o, N = word(h, op, M, w)
        if o is None:
            h.claim('%s .%s exists' % (label, w), False)
            continue
        apply(h, '%s .%s' % (label, w), o, N, 'v%s' % w)
    h.eq(label + ' to_array', op.to_array(), M)
    h.eq(label + ' full', op.full(), M)


def t_add(h, a, b, sub):
    A, MA = leaf(h, a, 'A', 2, 2)
    B, MB = leaf(h, b, 'B', 2, 2)
    check_all(h, 'A-B' if sub else 'A+B', A - B if sub else A + B, MA - MB if sub else MA + MB)
    # the operands are unchanged
    apply(h, 'A afterwards', A, MA, 'va')
    apply(h, 'B.H afterwards', B.H, MB.T.conj(), 'vb')


def t_compose(h, a, b, shapes):
    m, k, n = shapes
    A, MA = leaf(h, a, 'A', m, k)
    B, MB = leaf(h, b, 'B', k, n)
    check_all(h, 'A*B', A * B, h.np.dot(MA, MB))


def t_scale(h, a, s, how, shape=(2, 2)):
    A, MA = leaf(h, a, 'A', *shape)
    x = scal(h, s)
    if how == 'left':
        op, M = x * A, x * MA
    elif how == 'right':
        op, M = A * x, x * MA
    elif how == 'div':
        if s in ('D', 'npD'):
            h.assume(h.or_(x.real != 0, x.imag != 0))
        else:
            h.assume(x != 0)
        op, M = A / x, (1.0 / x) * MA
    else:
        op, M = -A, -MA
    check_all(h, how, op, M)


def t_pow(h, a, k):
    np = h.np
    A, MA = leaf(h, a, 'A', 2, 2)
    M = np.eye(2)
    for _ in range(k):
        M = np.dot(M, MA)
    if k == 0 and a[1] == 'D':
        M = M.astype('complex128')
    check_all(h, 'power', A ** k, M, deep=(k < 3))


def t_expr(h, which, dtype):
    "expressions of depth two and more"
    np = h.np
    A, MA = leaf(h, ('both', dtype), 'A', 2, 2)
    B, MB = leaf(h, ('sym', 'd'), 'B', 2, 2)
    C, MC = leaf(h, ('herm', 'D'), 'C', 2, 2)
    s = scal(h, 'd')
    dot = np.dot
    if which == 0:
        op, M = (A + s * B) * C, dot(MA + s * MB, MC)
    elif which == 1:
        op, M = (A * B).T + C, dot(MA, MB).T + MC
    elif which == 2:
        op, M = s * (A.H - C) * A, dot(s * (MA.T.conj() - MC), MA)
    elif which == 3:
        op, M = (A.bar * B - C.T).H, (dot(MA.conj(), MB) - MC.T).T.conj()
    elif which == 4:
        op, M = -(C * s + B) * A.T, dot(-(MC * s + MB), MA.T)
    elif which == 5:
        op, M = A.H * A + B * B, dot(MA.T.conj(), MA) + dot(MB, MB)
    elif which == 6:
        op, M = ((1j * B) + A).H * C, dot(((1j * MB) + MA).T.conj(), MC)
    elif which == 7:
        op, M = (A * (2 * C)) / 4, dot(MA, 2 * MC) * 0.25
    for w in ('', 'T', 'H', 'C'):
        o, N = word(h, op, M, w)
        if o is None:
            h.claim('.%s exists' % w, False)
            continue
        apply(h, 'expression .%s' % w, o, N, 'v' + w)


def t_sqrt(h, dtype):
    "the square root composed with itself is the operator; the absolute value is entrywise"
    np = h.np
    L = LO(h)
    if dtype == 'D':
        d = h.array([h.cplx(h.real('d%d' % i), h.real('e%d' % i)) for i in range(2)], 'D')
        return apply(h, 'sqrt*sqrt', L.sqrt(L.DiagonalOperator(d)) * L.sqrt(L.DiagonalOperator(d)), np.diag(d), 'v')
    d = h.array([h.real('d%d' % i, lo=0) for i in range(2)], 'd')
    D = L.DiagonalOperator(d)
    R = L.sqrt(D)
    apply(h, 'sqrt*sqrt', R * R, np.diag(d), 'v')
    e = h.vec('e', 2)
    apply(h, 'abs', abs(L.DiagonalOperator(e)), np.diag(np.abs(e)), 'w')
    Z = L.ZeroOperator(2, 2)
    apply(h, 'sqrt(0)', L.sqrt(Z) * L.sqrt(Z), h.zeros((2, 2)), 'z')
    apply(h, 'abs(0)', abs(Z), h.zeros((2, 2)), 'z2')
    h.raises('negative diagonal', ValueError,
             lambda: L.sqrt(L.DiagonalOperator(h.array([h.real('p', sign='+'), -h.real('q', sign='+')]))))


@prop('L03', MODS)
def l03(tier):
    q = tier == 'quick'
    b = 'operators up to 3x3, all entries and scalars symbolic, expressions of depth up to 3'
    pairs = [(('both', 'd'), ('both', 'd')), (('both', 'D'), ('both', 'D')), (('sym', 'd'), ('sym', 'd')),
             (('herm', 'D'), ('herm', 'D')), (('T', 'D'), ('both', 'd')), (('H', 'D'), ('symherm', 'd')),
             (('sym', 'D'), ('herm', 'D')), (('diag', 'd'), ('diag', 'D')), (('ident', 'd'), ('both', 'D')),
             (('zero', 'd'), ('both', 'd')), (('ndarray', 'd'), ('ndarray', 'D')), (('sym', 'd'), ('both', 'd')),
             (('both', 'd'), ('sym', 'd')), (('herm', 'D'), ('both', 'D')), (('both', 'D'), ('sym', 'D'))]
    for x, y in pairs:
        nm = '%s %s / %s %s' % (x + y)
        yield Case('add ' + nm, t_add, bound=b, a=x, b=y, sub=False)
        yield Case('sub ' + nm, t_add, bound=b, a=x, b=y, sub=True)
        yield Case('mul ' + nm, t_compose, bound=b, a=x, b=y, shapes=(2, 2, 2))
    yield Case('mul rect d', t_compose, bound=b, a=('both', 'd'), b=('both', 'd'), shapes=(2, 3, 1))
    yield Case('mul rect D', t_compose, bound=b, a=('T', 'D'), b=('H', 'D'), shapes=(1, 2, 3))
    for a in (('both', 'd'), ('sym', 'd'), ('both', 'D'), ('herm', 'D'), ('sym', 'D'), ('diag', 'D'), ('T', 'd'),
              ('symherm', 'd'), ('ident', 'd'), ('zero', 'd')):
        for s in ('d', 'D', 'i', 'npd', 'npD', 'i2'):
            for how in ('left', 'right', 'div'):
                if how == 'left' and s.startswith('np'):
                    continue
                if q and (s, how) in (('npd', 'right'), ('npD', 'right'), ('i2', 'right')):
                    continue
                yield Case('%s %s by %s, %s' % (a + (s, how)), t_scale, bound=b, a=a, s=s, how=how)
        yield Case('neg %s %s' % a, t_scale, bound=b, a=a, s='d', how='neg')
    yield Case('scale rect', t_scale, bound=b, a=('both', 'D'), s='D', how='right', shape=(1, 2))
    yield Case('divide rect', t_scale, bound=b, a=('both', 'd'), s='i', how='div', shape=(3, 2))
    for a in (('both', 'd'), ('sym', 'd'), ('both', 'D'), ('herm', 'D'), ('diag', 'D')):
        for k in range(0, 4 if q else 5):
            yield Case('pow %s %s %d' % (a + (k,)), t_pow, bound=b, a=a, k=k)
    for dt in 'dD':
        for k in (4, 5, 6):
            yield Case('pow diag %s %d' % (dt, k), t_pow, bound=b, a=('diag', dt), k=k)
    for w in range(8):
        for dt in 'dD':
            yield Case('expression %d %s' % (w, dt), t_expr, bound=b, which=w, dtype=dt)
    yield Case('sqrt and abs', t_sqrt, bound=b, dtype='d')
    yield Case('sqrt of complex', t_sqrt, bound=b, dtype='D')


# ----------------------------------------------------------------------------- L04 types

ORDER = 'ifdFD'


def t_dtypes(h, kind, odt, vdt):
    "the type of a product is the common type of operator and vector"
    np = h.np
    L = LO(h)
    n = 2
    D = {'i': 'int64', 'f': 'float32', 'd': 'float64', 'D': 'complex128', 'F': 'complex64'}
    v = h.vec('v', n, vdt)
    want = np.result_type(np.dtype(D[odt]), v.dtype)
    if kind == 'block':
        A = h.mat('A', n, n, odt)
        B = h.mat('B', n, 1, 'd')
        op = L.BlockLinearOperator([[L.linop_from_ndarray(A), L.linop_from_ndarray(B)]])
        A = np.concatenate((A, B), axis=1) if h.mode == 'real' else np.hstack((A, B))
        v = h.vec('v', n + 1, vdt)
        want = np.result_type(np.dtype(D[odt]), np.dtype('float64'), v.dtype)
    elif kind == 'blockdiag':
        A = h.mat('A', n, n, odt)
        op = L.BlockDiagonalLinearOperator([L.linop_from_ndarray(A), L.IdentityOperator(1, dtype=A.dtype)])
        M = h.zeros((3, 3), odt)
        M[:2, :2] = A
        M[2, 2] = 1
        A = M
        v = h.vec('v', 3, vdt)
    elif kind == 'diag':
        d = h.vec('d', n, odt)
        op, A = L.DiagonalOperator(d), np.diag(d)
    elif kind == 'coord':
        vals = h.vec('c', 3, odt)
        op = L.CoordLinearOperator(vals, np.array([0, 1, 1]), np.array([0, 0, 1]), n, n)
        A = h.zeros((n, n), odt)
        A[0, 0], A[1, 0], A[1, 1] = vals[0], vals[1], vals[2]
    elif kind == 'reduced':
        A = h.mat('A', 3, 3, odt)
        op = L.ReducedLinearOperator(L.linop_from_ndarray(A), [0, 2], [2, 1])
        A = h.array([[A[0, 2], A[0, 1]], [A[2, 2], A[2, 1]]], odt)
    elif kind == 'identity':
        A = np.eye(n).astype(D[odt])
        op = L.IdentityOperator(n, dtype=A.dtype)
    else:
        A = h.mat('A', n, n, odt)
        op = L.linop_from_ndarray(A)
    h.claim('operator dtype', op.dtype == A.dtype)
    h.claim('array dtype', op.to_array().dtype == op.dtype and op.T.to_array().dtype == op.dtype)
    y = op * v
    h.claim('A v dtype', y.dtype == want)
    h.eq('A v', y, np.dot(A, v))
    y = op.T * v[:op.nargout]
    if kind != 'block':
        h.claim('A.T v dtype', y.dtype == want)
        h.eq('A.T v', y, np.dot(A.T, v))
        y = op.H * v
        h.claim('A.H v dtype', y.dtype == want)
        h.eq('A.H v', y, np.dot(A.T.conj(), v))
        h.eq('conj(A) v', op.bar * v, np.dot(A.conj(), v))


def t_combo_dtype(h, a, b, how):
    np = h.np
    L = LO(h)
    D = {'i': 'int64', 'f': 'float32', 'd': 'float64', 'D': 'complex128'}
    A, B = h.mat('A', 2, 2, a), h.mat('B', 2, 2, b)
    oa, ob = L.linop_from_ndarray(A), L.linop_from_ndarray(B)
    want = np.result_type(A.dtype, B.dtype)
    if how == 'scalar':
        s = {'d': h.real('s'), 'D': h.cplx(h.real('sr'), h.real('si')), 'i': 3, 'f': h.npscalar(h.real('s'), 'f')}[b]
        op, M = oa * s, s * A
        h.assume(s != 0)
    else:
        op = {'add': lambda: oa + ob, 'sub': lambda: oa - ob, 'mul': lambda: oa * ob}[how]()
        M = {'add': lambda: A + B, 'sub': lambda: A - B, 'mul': lambda: np.dot(A, B)}[how]()
        h.claim('dtype', op.dtype == want)
        h.claim('T dtype', op.T.dtype == want)
        h.claim('H dtype', op.H.dtype == want)
    h.eq('to_array', op.to_array(), M)
    v = h.vec('v', 2, 'd')
    h.eq('A v', op * v, np.dot(M, v))
    h.eq('A.H v', op.H * v, np.dot(M.T.conj(), v))
    h.claim('complex if and only if', (op * v).dtype.kind == ('c' if 'D' in a + b else 'f'))


@prop('L04', MODS)
def l04(tier):
    bd = '2x2 operators, types int64 float32 float64 complex128'
    for kind in ('ndarray', 'diag', 'coord', 'reduced', 'block', 'blockdiag', 'identity'):
        for o in 'ifdD':
            for v in 'ifdD':
                yield Case('%s %s*%s' % (kind, o, v), t_dtypes, bound=bd, kind=kind, odt=o, vdt=v)
    for how in ('add', 'sub', 'mul', 'scalar'):
        for a in 'idD' if tier == 'quick' else 'ifdD':
            for b in 'idD' if tier == 'quick' else 'ifdD':
                yield Case('%s %s %s' % (how, a, b), t_combo_dtype, bound=bd, a=a, b=b, how=how)
