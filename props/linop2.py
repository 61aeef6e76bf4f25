"""Linear operators: shapes, purity, flags, reduction, coordinates, counters."""
from ._util import *
from ._util import pick
from .linop import source, sources, SQUARE, words, check_all, MODS, scal


# -------------------------------------------------------------------- L05 shape checking

def t_shape_vec(h, kind, dtype, m, n, what):
    "a vector of the wrong length is refused; one of the right length gives the right length"
    op, A = source(h, kind, dtype, m, n)
    m, n = A.shape
    L = LO(h)
    err = (ValueError, L.ShapeError)
    if what:
        op, A = word(h, op, A, what)
        m, n = A.shape
    for k in range(0, n + 3):
        if k == n:
            y = op * h.vec('x', n, dtype)
            h.claim('result shape', y.shape == (m,))
        else:
            v = h.vec('v%d' % k, k, dtype)
            h.raises('length %d refused' % k, err, lambda: op * v)


def t_shape_algebra(h, shapes):
    L = LO(h)
    (a, b), (c, d) = shapes
    A = h.mat('A', a, b)
    B = h.mat('B', c, d)
    oa, ob = wrap(h, A), wrap(h, B)
    err = (ValueError, L.ShapeError)
    if (a, b) != (c, d):
        h.raises('A+B', err, lambda: oa + ob)
        h.raises('A-B', err, lambda: oa - ob)
    else:
        h.eq('A+B', (oa + ob).to_array(), A + B)
        h.eq('A-B', (oa - ob).to_array(), A - B)
    if b != c:
        h.raises('A*B', err, lambda: oa * ob)
    else:
        P = oa * ob
        h.claim('shape of A*B', P.shape == (a, d) and P.T.shape == (d, a))
        h.eq('A*B', P.to_array(), h.np.dot(A, B))
    if a != b:
        for k in (0, 1, 2):
            h.raises('A**%d' % k, err, lambda: oa ** k)
    h.raises('A + 1', (ValueError, TypeError), lambda: oa + 1)
    h.raises('A - 1', (ValueError, TypeError), lambda: oa - 1)
    h.raises('list * A', (ValueError, TypeError), lambda: [1.0] * oa)
    h.raises('None * A', (ValueError, TypeError), lambda: None * oa)
    h.raises('A ** 0.5', (ValueError, TypeError), lambda: oa ** 0.5)
    h.raises('A / A', (ValueError, TypeError), lambda: oa / oa)
    h.raises('A ** -1', (ValueError, TypeError), lambda: oa ** (-1))
    h.raises('A * list', (ValueError, TypeError), lambda: oa * [1.0] * b)


def t_shape_2d(h, m, n):
    "column and row matrices of the right size count as vectors"
    np = h.np
    A = h.mat('A', m, n)
    op = wrap(h, A)
    x = h.vec('x', n)
    h.eq('column', op * x.reshape((n, 1)), np.dot(A, x))
    h.eq('row', op * x.reshape((1, n)), np.dot(A, x))
    y = h.vec('y', m)
    h.eq('T column', op.T * y.reshape((m, 1)), np.dot(A.T, y))


def t_shape_out(h, m, n, k):
    "a product function that gives a vector of the wrong length is found out"
    L = LO(h)
    y = h.vec('y', k)
    op = L.LinearOperator(n, m, matvec=lambda v: y, matvec_transp=lambda v: y)
    x, z = h.vec('x', n), h.vec('z', m)
    for label, o, v, size in (('A', op, x, m), ('A.T', op.T, z, n)):
        if k == size:
            h.eq(label, o * v, y)
        else:
            h.raises(label, (ValueError, L.ShapeError), lambda: o * v)


@prop('L05', MODS)
def l05(tier):
    for m, n in ((2, 3), (3, 1)):
        for k in range(5):
            yield Case('output %dx%d %d' % (m, n, k), t_shape_out, bound='3x2', m=m, n=n, k=k)
    b = 'operators up to 4x3, vectors of length 0 to n+2'
    for k, dt, m, n in sources(tier):
        for w in ('', 'T', 'H', 'C'):
            yield Case('%s %s %dx%d .%s' % (k, dt, m, n, w), t_shape_vec, bound=b, kind=k, dtype=dt, m=m, n=n, what=w)
    R = [(1, 2), (2, 1), (2, 2), (2, 3), (3, 2)]
    for s in R:
        for t in R:
            yield Case('algebra %s %s' % (s, t), t_shape_algebra, bound=b, shapes=(s, t))
    yield Case('2-d vectors', t_shape_2d, bound=b, m=3, n=2)


# -------------------------------------------------------------------------- L06 purity

def derived(h, op, A, other, B):
    "operators that share state with op"
    np = h.np
    s = h.real('s')
    yield 'A', op, A
    yield 'A.T', op.T, A.T
    yield 'A.H', op.H, A.T.conj()
    yield 'conj', op.bar, A.conj()
    yield 's*A', s * op, s * A
    yield 'A+B', op + other, A + B
    yield 'A*B.T', op * other.T, np.dot(A, B.T)


def t_pure(h, kind, dtype, m, n):
    "products change neither the vector nor the operator, and results are the caller's own"
    np = h.np
    op, A = source(h, kind, dtype, m, n)
    m, n = A.shape
    B = h.mat('B', m, n, dtype)
    other = wrap(h, B)
    A0, B0 = A.copy(), B.copy()
    items = list(derived(h, op, A0, other, B0))
    keep = []
    for name, o, M in items:
        x = h.vec('x_' + name, M.shape[1], dtype)
        x0 = x.copy()
        y = o * x
        want = np.dot(M, x0)
        h.eq(name + ' x', y, want)
        h.eq(name + ' leaves x alone', x, x0)
        keep.append((name, o, M, x0.copy(), y, want))
        y2 = o * x
        h.eq(name + ' again', y2, want)
        # writing into a result or into the vector afterwards changes nothing else
        x[:] = 0
        y2[:] = 7
        h.eq(name + ' result is independent of its vector', y, want)
    for name, o, M, x, y, want in keep:
        h.eq(name + ' earlier result', y, want)
        h.eq(name + ' product after other products', o * x, want)
        h.eq(name + ' array', o.to_array(), M)
    h.eq('matrix intact', A, A0)


def t_diag_snapshot(h, dtype):
    "the diagonal is copied at construction"
    np = h.np
    d = h.vec('d', 2, dtype)
    d0 = d.copy()
    D = LO(h).DiagonalOperator(d)
    x = h.vec('x', 2, dtype)
    d[0] = h.scalar('new', dtype)
    h.eq('D x', D * x, d0 * x)
    h.eq('D.T x', D.T * x, d0 * x)
    h.eq('D.H x', D.H * x, d0.conj() * x)
    h.eq('diag', D.diag, d0)


@prop('L06', MODS)
def l06(tier):
    b = 'operators up to 4x3 with their transposes, adjoints, conjugates, multiples, sums, products'
    for k, dt, m, n in sources(tier):
        yield Case('%s %s %dx%d' % (k, dt, m, n), t_pure, bound=b, kind=k, dtype=dt, m=m, n=n)
    for k, dt, m, n in (('diag', 'd', 4, 4), ('ident', 'd', 4, 4), ('diag', 'D', 3, 3), ('reduced', 'd', 2, 3), ('reduced', 'D', 2, 2),
                        ('symreduced', 'd', 3, 3), ('symreduced', 'D', 2, 2)):
        yield Case('%s %s %dx%d' % (k, dt, m, n), t_pure, bound=b, kind=k, dtype=dt, m=m, n=n)
    for dt in 'dD':
        yield Case('diagonal input %s' % dt, t_diag_snapshot, bound=b, dtype=dt)


# ----------------------------------------------------------------- L07 symmetry flags

def flags(h, label, op, M):
    "a flag that is set tells the truth"
    if M.shape[0] != M.shape[1]:
        h.claim(label + ' not symmetric', not op.symmetric)
        h.claim(label + ' not hermitian', not op.hermitian)
        return
    if op.symmetric:
        h.eq(label + ' symmetric', M, M.T)
    if op.hermitian:
        h.eq(label + ' hermitian', M, M.T.conj())


def t_flags_source(h, kind, dtype, m, n):
    np = h.np
    op, A = source(h, kind, dtype, m, n)
    for w in words(2):
        o, M = word(h, op, A, w)
        if o is None:
            continue
        flags(h, '.' + w, o, M)
        h.eq('matrix of .' + w, o.to_array(), M)
    if kind in ('sym', 'symH', 'symherm', 'ndarray_sym', 'diag', 'ident', 'coord_sym'):
        h.claim('reports symmetric', bool(op.symmetric))
    h.claim('prints its symmetry', ('Symmetric' in repr(op)) == bool(op.symmetric)
            and ('Hermitian' in repr(op)) == bool(op.hermitian) and '(%d,%d)' % A.shape in repr(op))
    if kind in ('herm', 'hermT', 'symherm', 'ndarray_herm', 'ident') or (kind, dtype) == ('diag', 'd'):
        h.claim('reports hermitian', bool(op.hermitian))


def t_flags_derived(h, a, b, how):
    np = h.np
    L = LO(h)
    A, MA = source(h, a[0], a[1], 2, 2, 'A')
    if how != 'scaled':
        B, MB = source(h, b[0], b[1], 2, 2, 'B')
    if how == 'add':
        op, M = A + B, MA + MB
    elif how == 'sub':
        op, M = A - B, MA - MB
    elif how == 'mul':
        op, M = A * B, np.dot(MA, MB)
    elif how == 'scaled':
        s = scal(h, b[1])
        op, M = s * A, s * MA
    elif how == 'imag':
        op, M = A * 2j, MA * 2j
    elif how == 'pow':
        op, M = A ** 2, np.dot(MA, MA)
    elif how == 'block':
        op = L.BlockLinearOperator([[A, B], [B, A]])
        M = h.zeros((4, 4), 'D')
        M[:2, :2], M[:2, 2:], M[2:, :2], M[2:, 2:] = MA, MB, MB, MA
    elif how == 'blockdiag':
        op = L.BlockDiagonalLinearOperator([A, B])
        M = h.zeros((4, 4), 'D')
        M[:2, :2], M[2:, 2:] = MA, MB
    flags(h, how, op, M)
    h.eq('array', op.to_array(), M)
    h.eq('T array', op.T.to_array(), M.T)
    h.eq('H array', op.H.to_array(), M.T.conj())


def t_flags_reduced(h, a):
    np = h.np
    L = LO(h)
    kind, dt = a
    op, A = source(h, kind, dt, 3, 3)
    n = A.shape[0]
    if n == 2:
        op = L.BlockDiagonalLinearOperator([op, L.IdentityOperator(1, dtype=A.dtype)])
        M = h.zeros((3, 3), dt)
        M[:2, :2] = A
        M[2, 2] = 1
        A = M
    for idx in ([0, 2], [2, 1], [1], [2, 0, 1]):
        R = L.SymmetricallyReducedLinearOperator(op, idx)
        M = h.array([[A[i, j] for j in idx] for i in idx], dt)
        flags(h, 'reduced', R, M)
        if op.symmetric:
            h.claim('reduced stays symmetric', bool(R.symmetric))
        h.eq('reduced array', R.to_array(), M)
        R = L.ReducedLinearOperator(op, idx, idx[::-1])
        M = h.array([[A[i, j] for j in idx[::-1]] for i in idx], dt)
        flags(h, 'reduced unsymmetrically', R, M)


def t_contradiction(h, sym):
    "a real array cannot be symmetric and not Hermitian, nor the reverse"
    A = h.mat('A', 2, 2)
    L = LO(h)
    h.raises('refused', ValueError, lambda: L.linop_from_ndarray(A, symmetric=sym, hermitian=not sym))


@prop('L07', MODS)
def l07(tier):
    for sym in (False, True):
        yield Case('contradiction %s' % sym, t_contradiction, bound='2x2', sym=sym)
    b = 'operators up to 4x4, all entries symbolic'
    for k, dt, m, n in sources(tier):
        yield Case('%s %s %dx%d' % (k, dt, m, n), t_flags_source, bound=b, kind=k, dtype=dt, m=m, n=n)
    S = [('both', 'd'), ('sym', 'd'), ('sym', 'D'), ('herm', 'D'), ('symherm', 'D'), ('diag', 'D'), ('diag', 'd'), ('ident', 'd')]
    for x in S:
        for y in S:
            for how in ('add', 'sub', 'mul', 'blockdiag', 'block'):
                if tier == 'quick' and how in ('mul', 'block') and (x[0] == 'ident' or y[0] == 'ident'):
                    continue
                yield Case('%s %s%s %s%s' % ((how,) + x + y), t_flags_derived, bound=b, a=x, b=y, how=how)
        for how in ('imag', 'pow'):
            yield Case('%s %s%s' % ((how,) + x), t_flags_derived, bound=b, a=x, b=x, how=how)
        for sdt in ('d', 'D', 'i', 'npd', 'npD'):
            yield Case('scaled %s%s by %s' % (x + (sdt,)), t_flags_derived, bound=b, a=x, b=('both', sdt), how='scaled')
        yield Case('reduced %s%s' % x, t_flags_reduced, bound=b, a=x)


# ------------------------------------------------------------------------ L08 reduction

def t_reduced(h, dtype, mode, m, n, rows, cols):
    np = h.np
    A = h.mat('A', m, n, dtype)
    op = LO(h).ReducedLinearOperator(wrap(h, A, mode), rows, cols)
    M = h.array([[A[i, j] for j in cols] for i in rows], dtype)
    h.claim('shape', tuple(op.shape) == (len(rows), len(cols)))
    for dt in 'dD':
        x, y = h.vec('x' + dt, len(cols), dt), h.vec('y' + dt, len(rows), dt)
        x0, y0 = x.copy(), y.copy()
        h.eq('A[r,c] x ' + dt, op * x, np.dot(M, x))
        h.eq('A[r,c].T y ' + dt, op.T * y, np.dot(M.T, y))
        h.eq('A[r,c].H y ' + dt, op.H * y, np.dot(M.T.conj(), y))
        h.eq('conj ' + dt, op.bar * x, np.dot(M.conj(), x))
        h.eq('x unchanged ' + dt, x, x0)
        h.eq('y unchanged ' + dt, y, y0)
    h.claim('dtype', op.dtype == A.dtype)


def t_symreduced(h, dtype, kind, n, idx):
    np = h.np
    op, A = source(h, kind, dtype, n, n)
    R = LO(h).SymmetricallyReducedLinearOperator(op, idx)
    M = h.array([[A[i, j] for j in idx] for i in idx], dtype)
    h.claim('shape', tuple(R.shape) == (len(idx), len(idx)))
    for dt in 'dD':
        x = h.vec('x' + dt, len(idx), dt)
        h.eq('A[i,i] x ' + dt, R * x, np.dot(M, x))
        h.eq('A[i,i].T x ' + dt, R.T * x, np.dot(M.T, x))
        h.eq('A[i,i].H x ' + dt, R.H * x, np.dot(M.T.conj(), x))


def subsets(n, k):
    import itertools
    return [list(p) for j in range(1, k + 1) for p in itertools.permutations(range(n), j)]


@prop('L08', MODS)
def l08(tier):
    b = 'every ordered selection of up to 3 rows and columns of operators up to 4x3'
    big = tier == 'thorough'
    for dt, mode in (('d', 'both'), ('D', 'both'), ('D', 'T'), ('D', 'H'), ('d', 'T')):
        R = subsets(3, 2) if not big else subsets(4, 3)
        C = subsets(2, 2) if not big else subsets(3, 3)
        for r in R:
            for c in C:
                if not big and dt == 'D' and (len(r) + len(c)) % 2 == 0 and mode != 'both':
                    continue
                yield Case('%s %s rows %s cols %s' % (dt, mode, r, c), t_reduced, bound=b, dtype=dt, mode=mode,
                           m=4 if big else 3, n=3 if big else 2, rows=r, cols=c)
    for k, dt in (('both', 'd'), ('both', 'D'), ('T', 'D'), ('H', 'D'), ('sym', 'd'), ('sym', 'D'), ('symH', 'D'), ('herm', 'D'), ('hermT', 'D'),
                  ('diag', 'D')):
        for i in subsets(3, 3):
            yield Case('sym %s %s %s' % (k, dt, i), t_symreduced, bound=b, dtype=dt, kind=k, n=3, idx=i)
    yield Case('nested', t_reduced_wide, bound=b)


def t_reduced_wide(h):
    "tall, wide and nested reductions"
    np = h.np
    L = LO(h)
    A = h.mat('A', 3, 4)
    R = L.ReducedLinearOperator(L.ReducedLinearOperator(wrap(h, A), [2, 0], [3, 1, 0]), [1], [2, 0])
    M = h.array([[A[0, 0], A[0, 3]]])
    x, z = h.vec('x', 2), h.vec('z', 1)
    h.eq('nested', R * x, np.dot(M, x))
    h.eq('nested T', R.T * z, np.dot(M.T, z))


# ---------------------------------------------------------------------- L09 coordinates

def t_coord(h, dtype, nnz, m, n, symmetric, infer, integer=False):
    "the operator is the sum of its triplets, whatever their positions"
    np = h.np
    L = LO(h)
    vals = h.vec('a', nnz, dtype)
    rows, cols = [], []
    M = h.zeros((m, n), dtype)
    for k in range(nnz):
        if symmetric:
            opts = [(i, j) for i in range(n) for j in range(i + 1)]
        else:
            opts = [(i, j) for i in range(m) for j in range(n)]
        i, j = h.option('position %d' % k, opts)
        if symmetric == 'upper':
            i, j = j, i
        rows.append(i)
        cols.append(j)
        M[i, j] = M[i, j] + vals[k]
        if symmetric and i != j:
            M[j, i] = M[j, i] + vals[k]
    kw = {} if infer else dict(nargin=n, nargout=m)
    op = L.CoordLinearOperator(vals, np.array(rows), np.array(cols), symmetric=bool(symmetric), **kw)
    if infer:
        mm, nn = max(rows) + 1, max(cols) + 1
        if symmetric:
            mm = nn = max(mm, nn)
        M = M[:mm, :nn]
        m, n = mm, nn
    h.claim('shape', tuple(op.shape) == (m, n))
    x, y = h.vec('x', n, dtype), h.vec('y', m, dtype)
    h.eq('A x', op * x, np.dot(M, x))
    h.eq('A.T y', op.T * y, np.dot(M.T, y))
    h.eq('A.H y', op.H * y, np.dot(M.T.conj(), y))
    if symmetric:
        h.claim('symmetric', bool(op.symmetric))


@prop('L09', MODS, total_s=60)
def l09(tier):
    b = 'up to 3 triplets at every position of matrices up to 3x2 (4 triplets, 3x3 thorough), duplicates included'
    P = lambda: Params(max_paths=600)
    for dt in 'dD':
        yield Case('%s 2 triplets 3x2' % dt, t_coord, bound=b, params=P(), dtype=dt, nnz=2, m=3, n=2, symmetric=False, infer=False)
        yield Case('%s 2 triplets inferred' % dt, t_coord, bound=b, params=P(), dtype=dt, nnz=2, m=2, n=3, symmetric=False, infer=True)
        for s in ('lower', 'upper'):
            yield Case('%s 2 triplets sym %s' % (dt, s), t_coord, bound=b, params=P(), dtype=dt, nnz=2, m=3, n=3, symmetric=s, infer=False)
            yield Case('%s 2 triplets sym %s inferred' % (dt, s), t_coord, bound=b, params=P(), dtype=dt, nnz=2, m=3, n=3, symmetric=s, infer=True)
    yield Case('3 triplets', t_coord, bound=b, params=P(), dtype='d', nnz=3, m=2, n=2, symmetric=False, infer=False)
    yield Case('3 triplets sym', t_coord, bound=b, params=P(), dtype='d', nnz=3, m=2, n=2, symmetric='lower', infer=True)
    yield Case('4 triplets', t_coord, bound=b, params=Params(max_paths=2000, budget_s=100), tiers=('thorough',), dtype='d', nnz=4, m=2, n=2, symmetric=False, infer=False)
    yield Case('3 triplets 3x3', t_coord, bound=b, params=Params(max_paths=2000, budget_s=100), tiers=('thorough',), dtype='D', nnz=3, m=3, n=3, symmetric=False, infer=False)


# ------------------------------------------------------------------------- L10 counters

def t_counter(h, kind, dtype, m, n, k):
    "nMatvec counts the products computed, by whichever route, since the last reset"
    np = h.np
    op, A = source(h, kind, dtype, m, n)
    m, n = A.shape
    h.claim('starts at zero', op.nMatvec == 0)
    count = 0
    for step in range(k):
        what = pick(h, 'step%d' % step, ['mul', 'call', 'array', 'reset', 'derived', 'multiple'])
        x = h.vec('x%d' % step, n, dtype)
        if what == 'mul':
            op * x
            count += 1
        elif what == 'call':
            op(x)
            count += 1
        elif what == 'array':
            op.to_array()
            count += n
        elif what == 'reset':
            op.reset_counters()
            count = 0
        elif what == 'derived':
            B = wrap(h, h.mat('B%d' % step, m, n, dtype))
            S = op + B
            S * x
            S * x
            count += 2
            h.claim('the sum counts its own', S.nMatvec == 2)
        elif what == 'multiple':
            T = 2.0 * op
            T.to_array()
            count += n
        h.claim('count after %d steps' % (step + 1), op.nMatvec == count)


def t_counter_transposed(h, kind, dtype, m, n):
    "the transpose and the adjoint have counters of their own, or the operator's if they are the operator"
    op, A = source(h, kind, dtype, m, n)
    m, n = A.shape
    for name, get in (('T', lambda: op.T), ('H', lambda: op.H)):
        other = get()
        if other is None:
            continue
        x = h.vec('x' + name, m, dtype)
        a, b = op.nMatvec, other.nMatvec
        other * x
        h.claim(name + ' counted', other.nMatvec == b + 1)
        h.claim(name + ' counted once', op.nMatvec == a + (1 if other is op else 0))
        a, b = op.nMatvec, op.H.nMatvec
        op.rmatvec(x)
        h.claim('rmatvec counted', op.H.nMatvec == b + 1)
        h.claim('rmatvec counted once', op.nMatvec == a + (1 if op.H is op else 0))


@prop('L10', MODS)
def l10(tier):
    for k, dt, m, n in sources(tier):
        # adjoints that are inferred are computed by products with the operator
        if dt == 'd' or k in ('both', 'zero'):
            yield Case('transposed %s %s %dx%d' % (k, dt, m, n), t_counter_transposed, bound='2x3', kind=k, dtype=dt, m=m, n=n)
    b = 'every history of up to 3 (thorough: 4) uses of an operator'
    for k, dt in (('both', 'd'), ('both', 'D'), ('sym', 'd'), ('diag', 'D'), ('ident', 'd'), ('coord', 'd'), ('ndarray', 'd')):
        m, n = (2, 2) if k in SQUARE else (1, 2)
        yield Case('%s %s' % (k, dt), t_counter, bound=b, params=Params(max_paths=1500), kind=k, dtype=dt, m=m, n=n,
                   k=3 if tier == 'quick' else 4)


# ------------------------------------------------------------------------- L11 factorizations

class NotPositiveDefinite(Exception):
    pass


def cholesky(A):
    "what scikits.sparse.cholmod promises: a callable that solves A x = b, or an exception"
    return A.factorize()


def sparse(h, A, definite=True):
    "a sparse matrix whose factorization exists (or does not); counts the factorizations"
    np = h.np

    class Sparse(object):
        shape = tuple(A.shape)
        dtype = A.dtype
        factored = 0

        def factorize(self):
            Sparse.factored += 1
            if not definite:
                raise NotPositiveDefinite('not positive definite')
            return lambda b: solve(np, A, b)
    return Sparse()


def solve(np, A, b):
    "A x = b by elimination without exchanges, which positive definite matrices allow"
    n = A.shape[0]
    R = [[A[i, j] for j in range(n)] + [b[i]] for i in range(n)]
    for k in range(n):
        for i in range(k + 1, n):
            f = R[i][k] / R[k][k]
            for j in range(k, n + 1):
                R[i][j] = R[i][j] - f * R[k][j]
    x = np.zeros(n, dtype=np.result_type(A.dtype, b.dtype))
    for k in reversed(range(n)):
        v = R[k][n]
        for j in range(k + 1, n):
            v = v - R[k][j] * x[j]
        x[k] = v / R[k][k]
    return x


def t_cholesky(h, n, dtype='d'):
    np = h.np
    h.external('scikits.sparse.cholmod', cholesky=cholesky, CholmodError=NotPositiveDefinite,
               CholmodNotPositiveDefiniteError=NotPositiveDefinite)
    C = h.mod('pykrylov.linop.cholesky')
    A = h.spd('A', n)
    op = C.CholeskyOperator(sparse(h, A))
    b, c = h.vec('b', n), h.vec('c', n)
    h.claim('shape', tuple(op.shape) == (n, n))
    h.claim('symmetric', bool(op.symmetric))
    h.eq('A (op b) = b', np.dot(A, op * b), b)
    h.eq('op (A c) = c', op * np.dot(A, c), c)
    h.eq('the transpose solves as well', np.dot(A, op.T * b), b)
    h.eq('the adjoint solves as well', np.dot(A, op.H * b), b)
    h.eq('again, with another right-hand side', np.dot(A, op(c)), c)
    h.claim('products are counted', op.nMatvec >= 3)


def t_cholesky_in_algebra(h, n):
    "the operator composes with others like any operator"
    np = h.np
    h.external('scikits.sparse.cholmod', cholesky=cholesky, CholmodError=NotPositiveDefinite,
               CholmodNotPositiveDefiniteError=NotPositiveDefinite)
    C = h.mod('pykrylov.linop.cholesky')
    A, B = h.spd('A', n), h.mat('B', n, n)
    op = C.CholeskyOperator(sparse(h, A))
    Bop = wrap(h, B)
    b = h.vec('b', n)
    h.eq('A (op (B b)) = B b', np.dot(A, (op * Bop) * b), np.dot(B, b))
    h.eq('transpose of the product', (op * Bop).T * b, np.dot(B.T, op * b))
    h.eq('scaled', np.dot(A, (3 * op) * b), 3 * b)
    h.eq('sum', np.dot(A, (op + Bop) * b), b + np.dot(np.dot(A, B), b))


def t_cholesky_rejects(h, m, n):
    h.external('scikits.sparse.cholmod', cholesky=cholesky, CholmodError=NotPositiveDefinite,
               CholmodNotPositiveDefiniteError=NotPositiveDefinite)
    C = h.mod('pykrylov.linop.cholesky')
    A = sparse(h, h.mat('A', m, n), definite=False)
    if m != n:
        h.raises('a matrix that is not square is rejected', ValueError, lambda: C.CholeskyOperator(A))
    else:
        h.raises('the failure of the factorization is reported', NotPositiveDefinite, lambda: C.CholeskyOperator(A))


@prop('L11', MODS)
def l11(tier):
    b = 'positive definite matrices of order 1 to 3 (thorough: 4), all right-hand sides'
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        yield Case('solve n=%d' % n, t_cholesky, bound=b, n=n)
    yield Case('algebra n=2', t_cholesky_in_algebra, bound=b, n=2)
    for m, n in ((1, 2), (2, 1), (3, 2), (2, 2)):
        yield Case('reject %dx%d' % (m, n), t_cholesky_rejects, bound=b, m=m, n=n)
