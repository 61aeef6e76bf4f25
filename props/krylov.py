"""The iterative methods for square systems: CG, CGS, Bi-CGSTAB, TFQMR."""
from ._util import *

SOLVERS = {'CG': 'pykrylov.cg', 'CGS': 'pykrylov.cgs', 'BiCGSTAB': 'pykrylov.bicgstab', 'TFQMR': 'pykrylov.tfqmr'}
MODS = ['pykrylov.linop'] + sorted(SOLVERS.values())
K = dict(name_numerators=1, div0='known', feas_timeout=0.2)
CUT = dict(K, div0='cut')


def policy(name):
    "CG has no breakdown to be excused; the other methods have"
    return K if name == 'CG' else CUT


def solver(h, name):
    return getattr(h.mod(SOLVERS[name]), name)


class Counted(object):
    "the operator of a matrix, counting its products"
    def __init__(self, h, A, **kw):
        np = h.np
        self.A = A
        self.count = 0
        self.log = []

        def mv(v):
            self.count += 1
            return np.dot(A, v)
        self.op = LO(h).LinearOperator(A.shape[1], A.shape[0], matvec=mv,
                                       matvec_transp=lambda v: np.dot(A.T, v), dtype=A.dtype, **kw)


def system(h, name, n, kind, dtype='d', pre=None):
    """A system of the kind the method is for.
    full: any matrix, any right-hand side.  basis: the right-hand side is b*e1 and the matrix
    in the condensed form (tridiagonal, Hessenberg) that orthogonal changes of basis reach.
    spd: positive definite."""
    np = h.np
    if kind == 'basis':
        A = h.mat('A', n, n, dtype, 'tri' if name == 'CG' else 'hess')
        b = h.zeros(n, dtype)
        b[0] = h.real('b', sign='+')
    elif kind in ('spd', 'spde1'):
        A = h.spd('A', n, dtype)
        b = h.vec('b', n, dtype)
        if kind == 'spde1':
            b = h.zeros(n, dtype)
            b[0] = h.real('b', sign='+')
    elif kind == 'spdbasis':
        L = h.mat('L', n, n, dtype, 'lbidiag')
        A = np.dot(L, L.T)
        b = h.zeros(n, dtype)
        b[0] = h.real('b', sign='+')
    elif kind.startswith('deep'):
        A, b = deep(h, n, {'CG': 'indef' if kind == 'deepindef' else 'spd'}.get(name, 'full'), dtype)
    else:
        A = h.mat('A', n, n, dtype, ('herm' if dtype == 'D' else 'sym') if name == 'CG' else 'full')
        b = h.vec('b', n, dtype)
    c = Counted(h, A, **(dict(hermitian=True) if name == 'CG' else {}))
    return c, A, b


def precon(h, n, pre, dtype='d'):
    "a positive definite preconditioner and its matrix"
    if not pre:
        return None, None
    if pre == 'diag':
        d = h.zeros(n, 'd')
        for i in range(n):
            d[i] = h.real('m%d' % i, sign='+')
        M = h.np.diag(d)
        return LO(h).DiagonalOperator(d), M
    if pre in ('deep', 'deepone'):
        p = h.const(1)
        if pre == 'deep':
            p = h.real('p', sign='+')
            h.assume(p >= h.const('1/1000'))
        M = h.zeros((n, n))
        for i in range(n):
            M[i, i] = p * h.const(1 + (2 * i) % 3)
        return wrap(h, M, 'symherm'), M
    M = h.spd('M', n)
    return wrap(h, M, 'symherm'), M


def guess_of(h, kw, guess, n, dtype, A, b):
    "with a guess g, b is the initial residual and the right-hand side b + A g: as general"
    if guess:
        g = kw['guess'] = h.vec('g', n, dtype)
        return b + h.np.dot(A, g)
    return b


def truenorm(h, A, b, x):
    np = h.np
    r = b - np.dot(A, x)
    return h.sqrt(np.vdot(r, r).real if hasattr(np.vdot(r, r), 'real') else np.vdot(r, r))


def sq(h, r, M=None):
    np = h.np
    v = np.vdot(r, r if M is None else np.dot(M, r))
    return np.real(v)


DB = 'multiples of fixed matrices and right-hand sides of order up to 12, up to 16 products'
DEEP = [(4, 8, True, 'deep'), (6, 9, False, 'deep'), (6, 12, True, None), (12, 12, False, None), (8, 16, False, None)]


DEEPER = [(4, 8, True, None), (4, 6, False, 'deep'), (6, 12, False, None)]


# ------------------------------------------------------- K01 residual norms are the true ones

def t_resid(h, meth, n, kind, mm, guess=False, pre=None, dtype='d'):
    np = h.np
    c, A, b = system(h, meth, n, kind, dtype)
    kw = {}
    b = guess_of(h, kw, guess, n, dtype, A, b)
    P, M = precon(h, n, pre)
    x0 = kw.get('guess', np.zeros(n))
    s = solver(h, meth)(c.op, abstol=h.const(0), reltol=h.const(0), precon=P)
    s.solve(b, matvec_max=mm, **kw)
    N = M if meth == 'CG' else None
    x = s.bestSolution
    if not h.finite(x):
        return
    h.eq('initial residual norm', s.residNorm0 * s.residNorm0, sq(h, b - np.dot(A, x0), N))
    h.claim('norms are not negative', h.and_(s.residNorm >= 0, s.residNorm0 >= 0))
    r2 = sq(h, b - np.dot(A, x), N)
    if meth == 'TFQMR':
        k = s.nMatvec - (1 if guess else 0)
        h.leq('residual within the reported bound', r2, s.residNorm * s.residNorm * (k + 1))
    else:
        h.eq('final residual norm', s.residNorm * s.residNorm, r2)
    h.claim('x is the best solution', s.x is s.bestSolution)


@prop('K01', MODS, total_s=90)
def k01(tier):
    b = 'executions without division by zero, n<=3, up to 4 products; condensed matrices beyond 2 products'
    for name in ('CG', 'CGS', 'BiCGSTAB', 'TFQMR'):
        for n, mm, guess, pre in DEEP + ([(12, 24, False, None)] if tier == 'thorough' else []):
            yield Case('%s deep n=%d max=%d guess=%s precon=%s' % (name, n, mm, guess, pre), t_resid, bound=DB,
                       params=Params(**policy(name)), meth=name, n=n, kind='deep', mm=mm + guess, guess=guess, pre=pre)
        for n, kind, mm in [(1, 'full', 2), (2, 'full', 1), (2, 'full', 2), (2, 'basis', 3), (2, 'basis', 4),
                            (3, 'basis', 2)]:
            for guess in (False, True):
                if guess and (kind == 'basis' or mm > 3):
                    continue
                for pre in (None, 'diag', 'spd'):
                    if pre and (mm > 2 or guess or n == 1):
                        continue
                    if name == 'TFQMR' and tier == 'quick' and (n == 2 and kind == 'full' and (mm > 1 or guess)
                                                                or n == 3 and pre == 'spd'):
                        continue
                    yield Case('%s n=%d %s max=%d guess=%s precon=%s' % (name, n, kind, mm, guess, pre), t_resid,
                               bound=b, params=Params(**policy(name)), meth=name, n=n, kind=kind, mm=mm + guess,
                               guess=guess, pre=pre)


# ---------------------------------------------------- K02 convergence flag, K03 product budget

def t_status(h, meth, n, kind, guess=False, pre=None, top=4, dtype='d'):
    np = h.np
    c, A, b = system(h, meth, n, kind, dtype)
    kw = {}
    b = guess_of(h, kw, guess, n, dtype, A, b)
    P, M = precon(h, n, pre)
    x0 = kw.get('guess', np.zeros(n))
    abstol = h.real('abstol', lo=0)
    reltol = h.real('reltol', lo=0, hi=1)
    s = solver(h, meth)(c.op, abstol=abstol, reltol=reltol, precon=P)
    mm = h.int('mm', 0, top)
    s.solve(b, matvec_max=mm, **kw)
    N = M if meth == 'CG' else None
    x = s.bestSolution
    if not h.finite(x):
        return
    r0 = s.residNorm0
    h.eq('initial residual norm', r0 * r0, sq(h, b - np.dot(A, x0), N))
    h.claim('norms are not negative', h.and_(r0 >= 0, s.residNorm >= 0))
    thr = h.max(abstol, reltol * r0)
    conv = h.decide(s.converged)
    r2 = sq(h, b - np.dot(A, x), N)
    rn = s.residNorm
    if meth == 'TFQMR':
        k = s.nMatvec - (1 if guess else 0)
        h.leq('residual within the bound', r2, rn * rn * (k + 1))
        rn = rn * h.sqrt(h.const(k + 1))
    else:
        h.eq('residual norm', rn * rn, r2)
    if conv:
        h.leq('converged: residual within the tolerance', rn, thr)
    else:
        h.claim('not converged: residual above the tolerance', rn > thr)
        h.claim('not converged: limit reached or operator not definite',
                h.or_(s.nMatvec + (2 if meth == 'CGS' else 1) > mm,
                      h.not_(getattr(s, 'definite', True))))


@prop('K02', MODS, total_s=90)
def k02(tier):
    for name in ('CG', 'CGS', 'BiCGSTAB', 'TFQMR'):
        for n, top, guess, pre in DEEPER:
            yield Case('%s deep n=%d max<=%d guess=%s precon=%s' % (name, n, top, guess, pre), t_status,
                       bound=DB + ', all tolerances and limits', params=Params(**policy(name)),
                       meth=name, n=n, kind='deep', top=top, guess=guess, pre=pre)
        for n, kind, top in [(1, 'full', 3), (2, 'full', 2), (2, 'basis', 4)] + (
                [(2, 'basis', 2)] if name == 'TFQMR' else []) + ([(3, 'basis', 2)] if tier == 'thorough' else []):
            for guess in (False, True):
                for pre in (None, 'diag'):
                    if pre and (top > 2 or guess):
                        continue
                    if guess and kind == 'basis':
                        continue
                    if name == 'TFQMR' and tier == 'quick' and n == 2 and kind == 'full':
                        continue
                    yield Case('%s n=%d %s max<=%d guess=%s precon=%s' % (name, n, kind, top, guess, pre), t_status,
                               bound='executions without division by zero, n<=2, up to 4 products, all tolerances and limits', params=Params(**policy(name)),
                               meth=name, n=n, kind=kind, top=top, guess=guess, pre=pre)


def t_budget(h, meth, n, kind, guess=False, pre=None, top=4, dtype='d'):
    np = h.np
    c, A, b = system(h, meth, n, kind, dtype)
    kw = {}
    b = guess_of(h, kw, guess, n, dtype, A, b)
    P, M = precon(h, n, pre)
    s = solver(h, meth)(c.op, abstol=h.real('abstol', lo=0), reltol=h.real('reltol', lo=0, hi=1), precon=P)
    if top is None:
        s.solve(b, **kw)
        h.claim('default limit', c.count <= 2 * n + (1 if guess else 0))
    else:
        mm = h.int('mm', 0, top)
        s.solve(b, matvec_max=mm, **kw)
        h.claim('limit respected', h.or_(c.count <= mm, c.count == (1 if guess else 0)))
    h.claim('products are all counted', s.nMatvec == c.count)


@prop('K03', MODS, total_s=90)
def k03(tier):
    for name in ('CG', 'CGS', 'BiCGSTAB', 'TFQMR'):
        for n, top, guess, pre in DEEPER + [(6, None, False, None), (5, None, True, 'deep')]:
            yield Case('%s deep n=%d max<=%s guess=%s precon=%s' % (name, n, top, guess, pre), t_budget,
                       bound=DB + ', all tolerances and limits', params=Params(**K),
                       meth=name, n=n, kind='deep', top=top, guess=guess, pre=pre)
        for n, kind, top in [(1, 'full', 4), (2, 'full', 2), (2, 'basis', 4), (3, 'basis', 2), (1, 'full', None),
                             (2, 'basis', None)]:
            for guess in (False, True):
                for pre in (None, 'diag'):
                    if pre and (top != 2 or guess):
                        continue
                    if guess and kind == 'basis':
                        continue
                    yield Case('%s n=%d %s max<=%s guess=%s precon=%s' % (name, n, kind, top, guess, pre), t_budget,
                               bound='n<=3, up to 4 products, all tolerances and limits', params=Params(**K),
                               meth=name, n=n, kind=kind, top=top, guess=guess, pre=pre)


# ------------------------------------------------------------ K04 purity and repeatability

def t_pure(h, meth, n, kind, mm, guess=False, pre=None, dtype='d'):
    np = h.np
    c, A, b = system(h, meth, n, kind, dtype)
    b = b + h.zeros(n, dtype)
    kw = {}
    b = guess_of(h, kw, guess, n, dtype, A, b)
    P, M = precon(h, n, pre)
    b0, A0 = b.copy(), A.copy()
    g0 = kw['guess'].copy() if guess else None
    s = solver(h, meth)(c.op, abstol=h.const(0), reltol=h.const(0), precon=P)
    s.solve(b, matvec_max=mm, **kw)
    h.eq('right-hand side untouched', b, b0)
    h.eq('matrix untouched', A, A0)
    if guess:
        h.eq('guess untouched', kw['guess'], g0)
    x, rn, r0, nm = s.bestSolution, s.residNorm, s.residNorm0, s.nMatvec
    if not h.finite(x):
        return
    x1 = x.copy()
    s.solve(b, matvec_max=mm, **kw)
    h.eq('same solution again', s.bestSolution, x1)
    h.eq('first solution still the caller\'s', x, x1)
    h.claim('same count', s.nMatvec == nm)
    h.eq('same residual norm', s.residNorm, rn)
    h.eq('same initial residual norm', s.residNorm0, r0)
    x[:] = 3.0
    h.eq('solution does not share the right-hand side', b, b0)
    if guess:
        h.eq('solution does not share the guess', kw['guess'], g0)


def t_other(h, meth, n, kind, mm):
    "solving another system in between makes no difference"
    np = h.np
    c, A, b = system(h, meth, n, kind)
    s = solver(h, meth)(c.op, abstol=h.const(0), reltol=h.const(0))
    fresh = solver(h, meth)(c.op, abstol=h.const(0), reltol=h.const(0))
    d = h.vec('d', n)
    s.solve(d, matvec_max=mm)
    s.solve(b, matvec_max=mm)
    fresh.solve(b, matvec_max=mm)
    if not h.finite(s.bestSolution):
        return
    h.eq('solution', s.bestSolution, fresh.bestSolution)
    h.eq('residual norm', s.residNorm, fresh.residNorm)
    h.eq('initial residual norm', s.residNorm0, fresh.residNorm0)
    h.claim('count', s.nMatvec == fresh.nMatvec)
    h.claim('converged', s.converged == fresh.converged)


def t_int(h, meth, n, mm):
    "an integer right-hand side and guess are the same as their float counterparts"
    np = h.np
    A = h.mat('A', n, n, 'd', 'sym' if meth == 'CG' else 'full')
    c = Counted(h, A, **(dict(symmetric=True) if meth == 'CG' else {}))
    b = h.vec('b', n, 'i')
    s = solver(h, meth)(c.op, abstol=h.const(0), reltol=h.const(0))
    s.solve(b, matvec_max=mm)
    x1, n1 = s.bestSolution, s.residNorm
    t = solver(h, meth)(c.op, abstol=h.const(0), reltol=h.const(0))
    t.solve(b.astype('float64'), matvec_max=mm)
    if not h.finite(t.bestSolution):
        return
    h.eq('same solution', x1, t.bestSolution)
    h.eq('same residual norm', n1, t.residNorm)
    h.claim('floating-point solution', x1.dtype.kind == 'f')


@prop('K04', MODS, total_s=90)
def k04(tier):
    bd = 'executions without division by zero, n<=3, up to 4 products'
    for name in ('CG', 'CGS', 'BiCGSTAB', 'TFQMR'):
        for n, mm, guess, pre in DEEP:
            if n <= 6:
                yield Case('%s deep n=%d max=%d guess=%s precon=%s' % (name, n, mm, guess, pre), t_pure, bound=DB,
                           params=Params(**policy(name)), meth=name, n=n, kind='deep', mm=mm + guess, guess=guess, pre=pre)
        yield Case('%s deep other system' % name, t_other, bound=DB, params=Params(**policy(name)), meth=name, n=4,
                   kind='deep', mm=3)
        for n, kind, mm in [(1, 'full', 2), (2, 'full', 1), (2, 'full', 2), (2, 'basis', 4), (3, 'basis', 2)]:
            for guess in (False, True):
                for pre in (None, 'diag'):
                    if kind == 'basis' and guess or pre and (mm != 2 or n == 1):
                        continue
                    yield Case('%s n=%d %s max=%d guess=%s precon=%s' % (name, n, kind, mm, guess, pre), t_pure,
                               bound=bd, params=Params(**policy(name)), meth=name, n=n, kind=kind, mm=mm + guess,
                               guess=guess, pre=pre)
        for n, mm in ((1, 2), (2, 2)):
            yield Case('%s other system n=%d max=%d' % (name, n, mm), t_other, bound=bd, params=Params(**policy(name)),
                       meth=name, n=n, kind='full', mm=mm)
            yield Case('%s integers n=%d max=%d' % (name, n, mm), t_int, bound=bd, params=Params(**policy(name)),
                       meth=name, n=n, mm=mm)


# ------------------------------------------------------------------ K05 finite termination

def t_finite(h, meth, n, kind, guess=False, pre=None, dtype='d'):
    np = h.np
    c, A, b = system(h, meth, n, kind, dtype)
    kw = {}
    b = guess_of(h, kw, guess, n, dtype, A, b)
    P, M = precon(h, n, pre)
    s = solver(h, meth)(c.op, abstol=h.const(0), reltol=h.const(0), precon=P)
    steps = n if meth == 'CG' else 2 * n
    s.solve(b, matvec_max=steps + (1 if guess else 0), **kw)
    x = s.bestSolution
    h.claim('finite', h.finite(x))
    h.eq('exact solution', np.dot(A, x), b)
    h.claim('converged', s.converged)
    h.eq('zero residual norm', s.residNorm, h.const(0))


@prop('K05', MODS, total_s=100)
def k05(tier):
    bd = 'executions without division by zero, n<=2 (CG: 3)'
    for name in ('CG', 'CGS', 'BiCGSTAB', 'TFQMR'):
        for n, guess, pre in [(5, True, 'deep'), (6, False, None)] + ([(12, False, None)] if name == 'CG' else []):
            yield Case('%s deep n=%d guess=%s precon=%s' % (name, n, guess, pre), t_finite, bound=DB,
                       params=Params(**policy(name)), meth=name, n=n, kind='deep', guess=guess, pre=pre)
        f = 'spd' if name == 'CG' else 'full'
        L = [(1, f, False, None), (1, f, True, None), (1, f, False, 'diag')]
        if name == 'CG':
            L += [(2, 'spd', False, None), (2, 'spd', True, None), (2, 'spd', False, 'diag'), (2, 'spde1', False, 'spd'),
                  (2, 'spd', True, 'diag'), (2, 'spdbasis', False, 'spd'), (3, 'spdbasis', False, None)]
        else:
            L += [(2, 'basis', False, None), (2, 'basis', True, None), (2, 'basis', False, 'diag')]
            if tier == 'thorough':
                L += [(2, 'full', False, None), (2, 'full', True, None)]
        for n, kind, guess, pre in L:
            yield Case('%s n=%d %s guess=%s precon=%s' % (name, n, kind, guess, pre), t_finite, bound=bd,
                       params=Params(**policy(name)), meth=name, n=n, kind=kind, guess=guess, pre=pre)


# --------------------------------------------------- K06 CG: optimality, negative curvature

def t_galerkin(h, n, kind, steps, guess=False, pre=None):
    "after k products the residual is orthogonal to the Krylov space of dimension k"
    np = h.np
    c, A, b = system(h, 'CG', n, kind)
    kw = {}
    b = guess_of(h, kw, guess, n, 'd', A, b)
    P, M = precon(h, n, pre)
    s = solver(h, 'CG')(c.op, abstol=h.const(0), reltol=h.const(0), precon=P)
    s.solve(b, matvec_max=steps + (1 if guess else 0), **kw)
    x = s.bestSolution
    x0 = kw.get('guess', np.zeros(n))
    if not h.decide(s.definite):
        return
    r = b - np.dot(A, x)
    v = b - np.dot(A, x0)
    for k in range(s.nMatvec - (1 if guess else 0)):
        v = v if M is None else np.dot(M, v)
        h.eq('orthogonal to Krylov vector %d' % k, np.dot(r, v), h.const(0))
        v = np.dot(A, v) / 8


def t_descent(h, n, kind, steps, guess=False, pre=None):
    "definite is False exactly when a direction of nonpositive curvature was met, and then reports it"
    np = h.np
    c, A, b = system(h, 'CG', n, kind)
    kw = {}
    b = guess_of(h, kw, guess, n, 'd', A, b)
    P, M = precon(h, n, pre)
    s = solver(h, 'CG')(c.op, abstol=h.const(0), reltol=h.const(0), precon=P)
    s.solve(b, matvec_max=steps + (1 if guess else 0), **kw)
    x0 = kw.get('guess', np.zeros(n))
    if h.decide(s.definite):
        h.claim('no direction reported', s.infiniteDescent is None)
        return
    d = s.infiniteDescent
    h.claim('direction reported', d is not None)
    h.leq('nonpositive curvature', np.dot(d, np.dot(A, d)), h.const(0))
    h.claim('descent direction', np.dot(d, b - np.dot(A, x0)) > 0)
    h.claim('not converged', h.not_(s.converged))


def t_check_curv(h, n, steps):
    "with the curvature check off, the steps are taken all the same"
    np = h.np
    c, A, b = system(h, 'CG', n, 'full')
    s = solver(h, 'CG')(c.op, abstol=h.const(0), reltol=h.const(0))
    s.solve(b, matvec_max=steps, check_curvature=False)
    if not h.finite(s.bestSolution):
        return
    h.claim('reported definite', bool(s.definite))
    if s.nMatvec == n:
        h.eq('solved', np.dot(A, s.bestSolution), b)


def t_check_sym(h, n):
    "a symmetric operator passes the symmetry check"
    np = h.np
    c, A, b = system(h, 'CG', n, 'full')
    s = solver(h, 'CG')(c.op, abstol=h.const(0), reltol=h.const(0))
    s.solve(b, matvec_max=1, check_symmetric=True)
    h.claim('solved', s.bestSolution is not None)


@prop('K06', MODS, total_s=90)
def k06(tier):
    bd = 'n<=3, up to 3 steps'
    for n, kind, st, guess, pre in [(8, 'deep', 6, True, None), (6, 'deep', 5, False, 'deep'), (10, 'deep', 8, False, None),
                                    (8, 'deepindef', 6, False, None), (6, 'deepindef', 5, True, 'deep')]:
        for nm, fn in (('Galerkin', t_galerkin), ('curvature', t_descent)):
            if nm == 'Galerkin' and kind == 'deepindef':
                continue                       # CG stops at the first direction of negative curvature
            yield Case('%s %s n=%d steps=%d guess=%s precon=%s' % (nm, kind, n, st, guess, pre), fn,
                       bound=DB, params=Params(**K), n=n, kind=kind, steps=st, guess=guess, pre=pre)
    for n, kind, st in [(1, 'full', 1), (2, 'full', 1), (2, 'full', 2), (2, 'basis', 2), (3, 'full', 1),
                        (3, 'basis', 2), (3, 'spdbasis', 2)]:
        for guess in (False, True):
            for pre in (None, 'diag', 'spd'):
                if kind != 'full' and guess or n == 3 and pre == 'spd':
                    continue
                yield Case('Galerkin n=%d %s steps=%d guess=%s precon=%s' % (n, kind, st, guess, pre), t_galerkin,
                           bound=bd, params=Params(**K), n=n, kind=kind, steps=st, guess=guess, pre=pre)
                if kind != 'spdbasis':
                    yield Case('curvature n=%d %s steps=%d guess=%s precon=%s' % (n, kind, st, guess, pre), t_descent,
                               bound=bd, params=Params(**K), n=n, kind=kind, steps=st, guess=guess, pre=pre)
    for n in (1, 2):
        yield Case('check off n=%d' % n, t_check_curv, bound=bd, params=Params(**CUT), n=n, steps=n)


# --------------------------------------------------------------------------- K07 histories

def t_history(h, n, kind, steps, guess=False, pre=None):
    np = h.np
    c, A, b = system(h, 'CG', n, kind)
    kw = {}
    b = guess_of(h, kw, guess, n, 'd', A, b)
    P, M = precon(h, n, pre)
    x0 = kw.get('guess', np.zeros(n))
    s = solver(h, 'CG')(c.op, abstol=h.const(0), reltol=h.const(0), precon=P)
    s.solve(b, matvec_max=steps + (1 if guess else 0), store_resids=True, store_iterates=True, **kw)
    its = s.nMatvec - (1 if guess else 0) - (0 if h.decide(s.definite) else 1)
    h.claim('one residual norm per iterate', len(s.residHistory) == its + 1)
    h.claim('one residual per iterate', len(s.resids) == its + 1)
    h.claim('all iterates', len(s.iterates) == its + 1)
    h.eq('first iterate', s.iterates[0], x0)
    h.eq('last iterate', s.iterates[-1], s.bestSolution)
    for k in range(its + 1):
        r = np.dot(A, s.iterates[k]) - b
        h.eq('norm %d' % k, s.residHistory[k] * s.residHistory[k], sq(h, r, M))
        y = r if M is None else np.dot(M, r)
        h.eq('residual %d up to sign' % k, np.outer(s.resids[k], s.resids[k]), np.outer(y, y))


def t_default_history(h, n, steps):
    "nothing is kept unless asked for"
    c, A, b = system(h, 'CG', n, 'full')
    s = solver(h, 'CG')(c.op, abstol=h.const(0), reltol=h.const(0))
    s.solve(b, matvec_max=steps)
    h.claim('no vectors', len(s.resids) == 0 and len(s.iterates) == 0)


@prop('K07', MODS, total_s=90)
def k07(tier):
    bd = 'n<=3, up to 2 steps'
    for n, kind, st, guess, pre in [(8, 'deep', 6, True, None), (6, 'deep', 5, False, 'deep'), (10, 'deep', 10, False, None),
                                    (8, 'deepindef', 6, False, None)]:
        yield Case('%s n=%d steps=%d guess=%s precon=%s' % (kind, n, st, guess, pre), t_history,
                   bound=DB, params=Params(**K), n=n, kind=kind, steps=st, guess=guess, pre=pre)
    for n, kind, st in [(1, 'full', 1), (2, 'full', 1), (2, 'full', 2), (2, 'basis', 2), (3, 'basis', 2)]:
        for guess in (False, True):
            for pre in (None, 'diag', 'spd'):
                if kind != 'full' and guess or n == 3 and pre == 'spd':
                    continue
                yield Case('n=%d %s steps=%d guess=%s precon=%s' % (n, kind, st, guess, pre), t_history,
                           bound=bd, params=Params(**K), n=n, kind=kind, steps=st, guess=guess, pre=pre)
    yield Case('nothing stored by default', t_default_history, bound=bd, n=2, steps=2)


# ---------------------------------------------------------------------- K08 nothing to do

def t_zero(h, meth, n, guess, pre, dtype='d'):
    "a zero right-hand side, or a guess that solves the system: returned at once"
    np = h.np
    A = h.mat('A', n, n, dtype, ('herm' if dtype == 'D' else 'sym') if meth == 'CG' else 'full')
    c = Counted(h, A, **(dict(hermitian=True) if meth == 'CG' else {}))
    P, M = precon(h, n, pre)
    kw = {}
    if guess:
        g = h.vec('g', n, dtype)
        b = np.dot(A, g)
        kw['guess'] = g
        want = g.copy()
    else:
        b = h.zeros(n, dtype)
        want = b.copy()
    opts = {}
    if h.option('tolerances', (True, False)):
        opts = dict(abstol=h.const(0), reltol=h.const(0))
    s = solver(h, meth)(c.op, precon=P, **opts)
    s.solve(b, **kw)
    h.eq('solution', s.bestSolution, want)
    h.claim('converged', s.converged)
    h.eq('residual norm', s.residNorm, h.const(0))
    h.claim('no more products than the one with the guess', c.count == (1 if guess else 0) and s.nMatvec == c.count)


def t_close(h, meth, n, pre):
    "an initial residual within the absolute tolerance is accepted as it is"
    np = h.np
    A = h.mat('A', n, n, 'd', 'sym' if meth == 'CG' else 'full')
    c = Counted(h, A, **(dict(symmetric=True) if meth == 'CG' else {}))
    g, b = h.vec('g', n), h.vec('b', n)
    P, M = precon(h, n, pre)
    r = b - np.dot(A, g)
    nrm = h.sqrt(sq(h, r, M if meth == 'CG' else None))
    s = solver(h, meth)(c.op, precon=P, abstol=nrm, reltol=h.const(0))
    s.solve(b, guess=g)
    h.eq('solution', s.bestSolution, g)
    h.claim('converged', s.converged)
    h.eq('residual norm', s.residNorm, nrm)
    h.claim('one product', c.count == 1)


@prop('K08', MODS)
def k08(tier):
    for name in ('CG', 'CGS', 'BiCGSTAB', 'TFQMR'):
        for n in (1, 2, 3):
            for pre in (None, 'diag'):
                for dtype in ('d', 'D'):
                    for guess in (False, True):
                        yield Case('%s n=%d %s guess=%s precon=%s' % (name, n, dtype, guess, pre), t_zero,
                                   bound='n<=3', params=Params(**K), meth=name, n=n, guess=guess, pre=pre,
                                   dtype=dtype)
                yield Case('%s n=%d within tolerance precon=%s' % (name, n, pre), t_close,
                           bound='n<=3', params=Params(**K), meth=name, n=n, pre=pre)


# ------------------------------------------------------------------------ K09 complex systems

@prop('K09', MODS, total_s=100)
def k09(tier):
    bd = 'executions without division by zero, n<=2, up to 2 products'
    for name in ('CG', 'CGS', 'BiCGSTAB', 'TFQMR'):
        for n, mm, guess in [(4, 6, True), (6, 6, False)]:
            yield Case('%s deep residual n=%d max=%d guess=%s' % (name, n, mm, guess), t_resid, bound=DB,
                       params=Params(**policy(name)), meth=name, n=n, kind='deep', mm=mm + guess, guess=guess, dtype='D')
        yield Case('%s deep solved' % name, t_finite, bound=DB, params=Params(**policy(name)), meth=name,
                   n=4, kind='deep', guess=True, dtype='D')
        for n, mm, guess in [(1, 2, False), (1, 2, True), (2, 1, False), (2, 2, False)]:
            if name == 'TFQMR' and n == 2 and tier == 'quick':
                continue
            yield Case('%s residual n=%d max=%d guess=%s' % (name, n, mm, guess), t_resid, bound=bd,
                       params=Params(**policy(name)), meth=name, n=n, kind='full', mm=mm + guess, guess=guess, dtype='D')
        for guess in (False, True):
            yield Case('%s solved n=1 guess=%s' % (name, guess), t_finite, bound=bd, params=Params(**policy(name)), meth=name,
                       n=1, kind='spd' if name == 'CG' else 'full', guess=guess, dtype='D')
    yield Case('CG solved n=2', t_finite, bound=bd, params=Params(**K), meth='CG', n=2, kind='spde1',
               dtype='D')
