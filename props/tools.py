"""Utilities: roots of quadratics, operator checks, the gallery."""
from ._util import *

MODS = ['pykrylov.linop', 'pykrylov.tools.utils', 'pykrylov.gallery.gallery']
U = Params(fork_abs=True, budget_s=40)


def utils(h):
    return h.mod('pykrylov.tools.utils')


# ------------------------------------------------------------------- U01 roots of quadratics

def absle(h, x, y):
    return h.and_(x <= y, -x <= y)


def t_roots(h, kind, nitref):
    """kind: factored (two real roots), any"""
    f = utils(h).roots_quadratic
    tol = h.real('tol', lo=0, hi=0.125)
    if kind == 'factored':
        q2, r, s = h.real('q2', nz=True), h.real('r'), h.real('s')
        q1, q0 = -q2 * (r + s), q2 * r * s
    elif kind == 'double':
        q2, r = h.real('q2', nz=True), h.real('r')
        q1, q0 = -2 * q2 * r, q2 * r * r
    elif kind == 'nolinear':
        q2, q1, q0 = h.real('q2', nz=True), h.const(0), h.real('q0')
    elif kind == 'linear':
        q2, q1, q0 = h.const(0), h.real('q1'), h.real('q0')
    elif kind == 'noconstant':
        q2, q1, q0 = h.real('q2', nz=True), h.real('q1'), h.const(0)
    else:
        q2, q1, q0 = h.real('q2', nz=True), h.real('q1'), h.real('q0')
    roots = f(q2, q1, q0, tol=tol, nitref=nitref)
    if kind == 'linear':
        if h.decide(q1 == 0):
            h.claim('constant', h.or_(h.and_(q0 == 0, len(roots) == 1), h.and_(h.not_(q0 == 0), len(roots) == 0)))
            if roots:
                h.eq('zero', roots[0], h.const(0))
            return
        h.claim('one root', len(roots) == 1)
        h.eq('root', q1 * roots[0] + q0, h.const(0))
        return
    disc = q1 * q1 - 4 * q2 * q0
    prod, top = q2 * q0, tol * q1 * q1
    if h.decide(h.or_(prod > top, -prod > top)):
        if h.decide(disc < 0):
            h.claim('no real root', len(roots) == 0)
            return
        h.claim('two roots', len(roots) == 2)
        x, y = roots
        h.eq('first', (q2 * x + q1) * x + q0, h.const(0))
        h.eq('second', (q2 * y + q1) * y + q0, h.const(0))
        h.eq('sum', q2 * (x + y), -q1)
        h.eq('product', q2 * x * y, q0)
    else:
        # ill conditioned: roots far apart, approximated
        h.claim('two roots', len(roots) == 2)
        for k, x in enumerate(roots):
            v = (q2 * x + q1) * x + q0
            a0 = h.max(q0, -q0)
            h.claim('value %d' % k, absle(h, v, a0 if nitref == 0 else tol * a0))
        d = roots[0] - roots[1]
        if nitref < 2:
            h.claim('different roots', h.or_(q1 == 0, h.not_(d == 0)))


def t_rootdefault(h):
    "with the default tolerance"
    q2, q1, q0 = h.real('q2', nz=True), h.real('q1'), h.real('q0')
    roots = utils(h).roots_quadratic(q2, q1, q0)
    h.claim('at most two', len(roots) in (0, 2))
    for k, x in enumerate(roots):
        v = (q2 * x + q1) * x + q0
        a0 = h.max(q0, -q0)
        h.claim('value %d' % k, absle(h, v, h.const('1/10000000') * a0))
    disc = q1 * q1 - 4 * q2 * q0
    h.claim('roots exactly when real', h.or_(h.and_(disc >= 0, len(roots) == 2), h.and_(disc < 0, len(roots) == 0)))


@prop('U01', MODS, total_s=60)
def u01(tier):
    for kind in ('factored', 'double', 'linear', 'any', 'nolinear', 'noconstant'):
        for it in (0, 1, 2):
            yield Case('roots %s refinements=%d' % (kind, it), t_roots, bound='all coefficients, tol <= 1/8, up to 2 refinements',
                       params=U, kind=kind, nitref=it)
    yield Case('roots default', t_rootdefault, bound='all coefficients', params=U)


# ---------------------------------------------------------------------- U02 operator checks

class Logged(object):
    def __init__(self, h, A, **kw):
        np = h.np
        self.log = []

        def mv(v):
            self.log.append(v)
            return np.dot(A, v)
        self.op = LO(h).LinearOperator(A.shape[1], A.shape[0], matvec=mv, matvec_transp=lambda v: np.dot(A.T, v),
                                       dtype=A.dtype, **kw)


def t_symok(h, n, repeats):
    A = h.mat('A', n, n, 'd', 'sym')
    c = Logged(h, A, symmetric=True)
    h.claim('accepted', utils(h).check_symmetric(c.op, repeats=repeats) is True)
    h.claim('uses the operator', len(c.log) == 2 * repeats)


def t_symdefault(h, n):
    A = h.mat('A', n, n, 'd', 'sym')
    h.claim('accepted', utils(h).check_symmetric(wrap(h, A, 'sym')) is True)


def t_symbad(h, n, repeats):
    """accepted only when every random vector satisfies x'A'Ax = x'AAx up to rounding"""
    np = h.np
    A = h.mat('A', n, n)
    c = Logged(h, A)
    ans = utils(h).check_symmetric(c.op, repeats=repeats)
    h.claim('answers', ans is True or ans is False)
    for x in c.log[::2]:
        w = np.dot(A, x)
        s, t = np.dot(w, w), np.dot(x, np.dot(A, w))
        if ans:
            eps = 2.220446049250313e-16
            h.claim('symmetric on the vector', absle(h, s - t, (s + eps) * eps ** (1.0 / 3)))
    if not ans:
        x = c.log[::2][-1]
        w = np.dot(A, x)
        h.claim('not symmetric', h.not_(np.dot(w, w) == np.dot(x, np.dot(A, w))))


def t_symrect(h, m, n, what):
    A = h.mat('A', m, n)
    f = utils(h).check_symmetric if what == 'symmetric' else utils(h).check_positive_definite
    h.claim('rejected', f(wrap(h, A)) is False)


def t_pdok(h, n, repeats, dtype, semi):
    A = h.spd('A', n, dtype)
    if semi:
        # rank one, or zero
        g = h.vec('g', n, dtype)
        A = h.np.outer(g, g.conj())
    c = wrap(h, A, 'herm' if dtype == 'D' else 'sym')
    f = utils(h).check_positive_definite
    seen = []
    op = LO(h).LinearOperator(n, n, matvec=lambda v: (seen.append(v), h.np.dot(A, v))[1], hermitian=True, dtype=A.dtype)
    ans = f(op, repeats=repeats, semi=semi)
    if semi:
        h.claim('accepted', ans is True)
    else:
        # a random vector might be zero
        nonzero = h.and_(*[h.np.dot(v, v) > 0 for v in seen])
        h.claim('accepted', ans is True or h.not_(nonzero))


def t_pdbad(h, n, repeats, semi):
    "the answer is the sign of the curvatures along the random vectors"
    np = h.np
    A = h.mat('A', n, n, 'd', 'sym')
    c = Logged(h, A, symmetric=True)
    ans = utils(h).check_positive_definite(c.op, repeats=repeats, semi=semi)
    curv = [np.dot(v, np.dot(A, v)) for v in c.log]
    if ans:
        h.claim('as many vectors as asked for', len(curv) == repeats)
        h.claim('positive', h.and_(*[(k >= 0 if semi else k > 0) for k in curv]))
    else:
        k = curv[-1]
        h.claim('not positive', k < 0 if semi else k <= 0)


@prop('U02', MODS, total_s=60)
def u02(tier):
    for n in (1, 2, 3):
        for rep in (1, 2):
            yield Case('symmetric n=%d repeats=%d' % (n, rep), t_symok, bound='n<=3', n=n, repeats=rep)
    for n in (1, 2):
        yield Case('symmetric n=%d default repeats' % n, t_symdefault, bound='n<=3', n=n)
        yield Case('not symmetric n=%d' % n, t_symbad, params=U, bound='n<=3', n=n, repeats=1)
    for m, n in ((1, 2), (3, 2)):
        for what in ('symmetric', 'definite'):
            yield Case('rectangular %dx%d %s' % (m, n, what), t_symrect, bound='n<=3', m=m, n=n, what=what)
    for n in (1, 2):
        for semi in (False, True):
            for dt in 'dD':
                yield Case('definite n=%d semi=%s %s' % (n, semi, dt), t_pdok, bound='n<=3', n=n, repeats=2 if dt == 'd' else 1, dtype=dt,
                           semi=semi)
            yield Case('curvatures n=%d semi=%s' % (n, semi), t_pdbad, bound='n<=3', n=n, repeats=2, semi=semi)


# -------------------------------------------------------------------------- U03 the gallery

def poisson1d(n):
    return [[2 if i == j else -1 if abs(i - j) == 1 else 0 for j in range(n)] for i in range(n)]


def poisson2d(n):
    out = []
    for i in range(n * n):
        row = []
        for j in range(n * n):
            a, b = divmod(i, n)
            c, d = divmod(j, n)
            row.append(4 if i == j else -1 if abs(a - c) + abs(b - d) == 1 else 0)
        out.append(row)
    return out


def t_poisson(h, dim, n, dtype):
    g = h.mod('pykrylov.gallery.gallery')
    f = g.Poisson1dMatvec if dim == 1 else g.Poisson2dMatvec
    A = poisson1d(n) if dim == 1 else poisson2d(n)
    if dtype == 'i':
        x = h.zeros(len(A), 'i')
        for i in range(len(A)):
            x[i] = h.int('x%d' % i, -9, 9)
    else:
        x = h.vec('x', len(A), dtype)
    x0 = x.copy()
    y = f(x)
    h.eq('product', y, h.np.dot(h.array(A, dtype), x))
    h.eq('vector untouched', x, x0)
    y[0] = 1
    h.eq('not shared', x, x0)


@prop('U03', MODS, total_s=45)
def u03(tier):
    for dt in 'dDi':
        for n in range(1, 9):
            if dt == 'd' or n < 4:
                yield Case('Poisson1d n=%d %s' % (n, dt), t_poisson, bound='n<=8', dim=1, n=n, dtype=dt)
        for n in range(1, 6):
            if dt == 'd' or n < 4:
                yield Case('Poisson2d n=%d %s' % (n, dt), t_poisson, bound='grids up to 5x5', dim=2, n=n, dtype=dt)
