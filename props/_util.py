from driver import Case, Params
from props import prop


def LO(h):
    return h.mod('pykrylov.linop')


def wrap(h, A, mode='both', **kw):
    """A LinearOperator acting as the matrix A.  mode says how it is described:
    both / T / H / none: which of matvec_transp, matvec_adj is given;
    sym / herm / symherm: flags instead."""
    np = h.np
    m, n = A.shape
    if mode in ('both', 'T'):
        kw['matvec_transp'] = lambda v: np.dot(A.T, v)
    if mode in ('both', 'H'):
        kw['matvec_adj'] = lambda v: np.dot(A.T.conj(), v)
    if mode in ('sym', 'symherm', 'symH'):
        kw['symmetric'] = True
    if mode in ('herm', 'symherm', 'hermT'):
        kw['hermitian'] = True
    if mode == 'symH':
        kw['matvec_adj'] = lambda v: np.dot(A.T.conj(), v)
    if mode == 'hermT':
        kw['matvec_transp'] = lambda v: np.dot(A.T, v)
    return LO(h).LinearOperator(n, m, matvec=lambda v: np.dot(A, v), dtype=A.dtype, **kw)


def apply(h, label, op, M, vname='v', dtype=None):
    "op acts as the matrix M on an arbitrary vector of the operator's own type, and of the other"
    m, n = M.shape
    h.claim(label + ' shape', op is not None and tuple(op.shape) == (m, n))
    if op is None:
        return
    dt = dtype or ('D' if M.dtype.kind == 'c' else 'd')
    v = h.vec(vname, n, dt)
    h.eq(label, op * v, h.np.dot(M, v))
    if dtype is None:
        v = h.vec(vname + 'o', n, 'd' if dt == 'D' else 'D')
        h.eq(label + ' on the other type', op * v, h.np.dot(M, v))


def word(h, op, M, letters):
    "follow T / H / C (conjugate) letters through the operator and the matrix alike"
    for c in letters:
        if op is None:
            return None, M
        if c == 'T':
            op, M = op.T, M.T
        elif c == 'H':
            op, M = op.H, M.T.conj()
        else:
            op, M = op.bar, M.conj()
    return op, M


def pick(h, name, options):
    "one of the options, by a symbolic integer: the solver decides which are possible"
    k = h.int(name, 0, len(options) - 1)
    for i in range(len(options) - 1):
        if k == i:
            return options[i]
    return options[-1]


def deepentry(kind, m, n, i, j):
    if i == j:
        return 3 + (i * i + i // 2) % 7 - (6 if kind == 'indef' else 0)
    if kind == 'full' and (j > i or m != n):
        return (2 * i + 5 * j) % 4 - 1
    return 1 if abs(i - j) == 1 else 0


def deep(h, n, kind='full', dtype='d', m=None, one=False, only=''):
    """A fixed matrix (m x n; kind spd, indef: symmetric) and right-hand side, each times any positive number:
    the family in which many steps can be followed, the tolerances and limits being symbolic too.
    one: the same number for both; only: 'b' if the matrix is not scaled."""
    m = m or n
    s = h.const(1) if only == 'b' else h.real('scaleA', sign='+')
    t = s if one else h.real('scaleb', sign='+')
    h.assume(s >= h.const('1/1000'))
    h.assume(t >= h.const('1/1000'))
    cplx = dtype in 'FD'
    A = h.zeros((m, n), dtype)
    for i in range(m):
        for j in range(n):
            a, c = deepentry(kind, m, n, i, j), 0
            if cplx and i != j and (kind == 'full' or abs(i - j) == 1):
                c = (i + 1 if j > i else -j - 1) if kind != 'full' else (i + 2 * j) % 3 - 1
            A[i, j] = h.cplx(s * h.const(a), s * h.const(c)) if cplx else s * h.const(a)
    b = h.zeros(m, dtype)
    for i in range(m):
        re, im = t * h.const((3 * i) % 5 - 1), t * h.const((2 * i) % 3 - 1)
        b[i] = h.cplx(re, im) if cplx else re
    return A, b
