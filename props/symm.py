"""The methods for symmetric systems: MINRES and SYMMLQ."""
from ._util import *
from .krylov import Counted, K, precon, sq

MODS = ['pykrylov.minres', 'pykrylov.symmlq']


def symsystem(h, n, kind, shift=False):
    """A symmetric system (A - shift I) x = b in a form that loses no generality.
    basis: T tridiagonal and b = beta e1.  rot (n=2): rotated by an arbitrary angle, every
    system of size 2.  factor: with a preconditioner F F', A = F^-T T F^-1, b = beta F^-T e1
    with any invertible F, again every system with every positive definite preconditioner.
    Returns keywords for solve, operator, matrices A and A - shift I, b, preconditioner, its
    matrix.  The scale of T and beta keeps the guards against zero divisors (comparisons with
    the machine epsilon) out of the way."""
    np = h.np
    P = M = None
    if kind.startswith('deep'):
        B, b = deep(h, n, 'spd' if 'spd' in kind else 'indef', one='one' in kind)
        P, M = precon(h, n, ('deepone' if 'one' in kind else 'deep') if kind.endswith('P') else None)
        return shifted(h, n, B, b, P, M, shift)
    T = h.mat('T', n, n, 'd', 'tri')
    e = h.zeros(n)
    e[0] = h.real('beta', sign='+')
    regular(h, n, T, e[0])
    if kind == 'basis' or kind == 'diag':
        B, b = T, e
    elif kind == 'rot':
        c = h.real('c', lo=-1, hi=1)
        s = h.sqrt(1 - c * c)
        Q = h.array([[c, -s], [s, c]])
        B, b = np.dot(Q, np.dot(T, Q.T)), np.dot(Q, e)
    else:
        G = h.mat('G', n, n, 'd', 'full' if kind == 'factor' else 'lower')
        d = det(np, G)
        h.assume(d != 0)
        if n == 1:
            M = h.array([[1 / (d * d)]])
        else:
            F = h.array([[G[1, 1] / d, -G[1, 0] / d], [-G[0, 1] / d, G[0, 0] / d]])
            M = np.dot(F, F.T)
        B, b = np.dot(G, np.dot(T, G.T)), np.dot(G, e)
        P = wrap(h, M, 'symherm')
    if kind == 'diag':
        d = h.zeros(n)
        for i in range(n):
            d[i] = h.real('m%d' % i, sign='+')
        # A = D^-1 T D^-1, b = beta D^-1 e1
        M = np.diag(d * d)
        P = LO(h).DiagonalOperator(d * d)
        B = h.array([[T[i, j] / (d[i] * d[j]) for j in range(n)] for i in range(n)])
        b = e / d
    return shifted(h, n, B, b, P, M, shift)


def shifted(h, n, B, b, P, M, shift):
    kw = {}
    A = B
    if shift:
        s = kw['shift'] = h.real('s', nz=True)
        A = B + s * h.identity(n)
    return kw, Counted(h, A, symmetric=True), A, B, b, P, M


def det(np, A):
    n = A.shape[0]
    if n == 1:
        return A[0, 0]
    if n == 2:
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    return (A[0, 0] * (A[1, 1] * A[2, 2] - A[1, 2] * A[2, 1]) - A[0, 1] * (A[1, 0] * A[2, 2] - A[1, 2] * A[2, 0])
            + A[0, 2] * (A[1, 0] * A[2, 1] - A[1, 1] * A[2, 0]))


def regular(h, n, T, beta):
    "the first columns of T are independent, by a margin"
    np = h.np
    tiny = h.const('1/1000000')
    h.assume(beta >= h.const('1/1000'))
    last = h.const(1)
    for k in range(1, n + 1):
        g = det(np, np.dot(T[:, :k].T, T[:, :k]))
        h.assume(g >= tiny * last)
        last = g


def minres(h, c, **kw):
    return h.mod('pykrylov.minres').Minres(c.op, **kw)


# -------------------------------------------------------------- M01 MINRES minimises the residual

def t_minimal(h, n, kind, steps, shift=False):
    np = h.np
    kw, c, A, B, b, P, M = symsystem(h, n, kind, shift)
    s = minres(h, c, precon=P)
    s.solve(b, itnlim=steps, rtol=h.const(0), show=False, check=False, store_iterates=True, **kw)
    x = s.x
    if not h.finite(x):
        return
    r = b - np.dot(B, x)
    h.eq('residual norm', s.residNorm * s.residNorm, sq(h, r, M))
    h.claim('not negative', s.residNorm >= 0)
    h.eq('first residual norm', s.residNorm0 * s.residNorm0, sq(h, b, M))
    v = b if M is None else np.dot(M, b)
    Mr = r if M is None else np.dot(M, r)
    for k in range(s.itn):
        w = np.dot(B, v)
        h.eq('orthogonal to the operator times Krylov vector %d' % k, np.dot(Mr, w), h.const(0))
        v = w if M is None else np.dot(M, w)
    if s.itn == n:
        h.eq('solved', np.dot(B, x), b)
    h.claim('one iterate and one norm for each step',
            len(s.iterates) == s.itn + 1 and len(s.residHistory) == s.itn)
    h.eq('last iterate', s.iterates[-1], x)
    prev = s.residNorm0
    for k in range(s.itn):
        h.leq('norms do not grow %d' % k, s.residHistory[k], prev)
        prev = s.residHistory[k]
    h.claim('products are counted', s.nMatvec == c.count and c.count == s.itn)


@prop('M01', MODS, total_s=90)
def m01(tier):
    bd = 'nonsingular A - shift I, n<=3, up to 3 steps; multiples of fixed matrices of order up to 12, all shifts'
    for n, kind, st in [(5, 'deepP', 4), (6, 'deepspd', 5), (8, 'deep', 6), (12, 'deep', 7), (1, 'basis', 1), (1, 'basis', 2), (1, 'factor', 1), (2, 'basis', 1), (2, 'basis', 2), (2, 'rot', 1), (2, 'rot', 2),
                        (2, 'factor', 1), (2, 'lower', 2), (2, 'diag', 2), (3, 'basis', 1),
                        (3, 'basis', 2), (3, 'basis', 3), (3, 'diag', 2)]:
        for shift in (False, True):
            yield Case('MINRES n=%d %s steps=%d shift=%s' % (n, kind, st, shift), t_minimal,
                       bound=bd, params=Params(**K), n=n, kind=kind, steps=st, shift=shift)


# ------------------------------------------------- M02 MINRES: limits, status, special systems

def opnorm(h, kind, B, b, M, k, reported):
    "the estimate of the norm of the operator: its Frobenius norm on the Krylov space"
    np = h.np
    n = len(b)
    if M is not None or not (kind == 'basis' or 'one' in kind and n > 2):
        return
    if kind == 'basis':
        e = sum([sq(h, B[:, j]) for j in range(k)], h.const(0))
    else:
        u = B[0, 1]
        C, v = B / u, b / b[0]
        vs, e = [], h.const(0)
        for j in range(k):
            for w in vs:
                v = v - (np.dot(v, w) / np.dot(w, w)) * w
            vs.append(v)
            v = np.dot(C, v)
            e = e + np.dot(v, v) / np.dot(vs[-1], vs[-1])
        e = e * u * u
    h.eq('norm of the operator', reported * reported, e)
    h.claim('norm of the operator not negative', reported >= 0)


def lastnormal(h, s, B, b, M):
    "the last residual but one, its product with the operator, and the norm reported for it"
    np = h.np
    q = b - np.dot(B, s.iterates[-2])
    q = q if M is None else np.dot(M, q)
    return q, np.dot(B, q), s.residHistory[-2] if s.itn > 1 else s.residNorm0


def t_mstatus(h, n, kind, top, shift=False):
    np = h.np
    kw, c, A, B, b, P, M = symsystem(h, n, kind, shift)
    rtol = h.real('rtol', lo=0, hi=1)
    lim = h.int('lim', 0, top)
    s = minres(h, c, precon=P)
    s.solve(b, itnlim=lim, rtol=rtol, show=False, check=False, store_iterates=True, **kw)
    x = s.x
    if not h.finite(x):
        return
    h.claim('limit respected', s.itn <= lim)
    h.claim('products are counted', s.nMatvec == c.count and c.count == s.itn)
    r = b - np.dot(B, x)
    h.eq('residual norm', s.residNorm * s.residNorm, sq(h, r, M))
    h.claim('same solution under its names', s.x is s.bestSolution)
    h.claim('same norm under its names', s.rnorm is s.residNorm or s.rnorm == s.residNorm)
    conv = h.decide(s.converged)
    if not conv:
        h.claim('not converged: limit reached', s.itn == lim)
        h.claim('not converged: the status says so', s.istop == 6)
        if s.itn and (kind[:4] == 'deep' or n < 3):
            h.leq('residual not small before', rtol * s.Anorm * s.ynorm, s.rnorm)
            q, aq, last = lastnormal(h, s, B, b, M)
            h.leq('residual of the normal equations not small before', rtol * s.Anorm * last, s.Arnorm)
    else:
        h.claim('converged: a convergence status', h.or_(*[s.istop == k for k in (-1, 1, 2, 3, 4, 10)]))
        if s.istop == 1:
            h.leq('residual small', s.rnorm, rtol * s.Anorm * s.ynorm)
        elif s.istop == 2:
            q, aq, last = lastnormal(h, s, B, b, M)
            h.eq('norm of the normal equations', s.Arnorm * s.Arnorm, np.dot(aq, aq if M is None else np.dot(M, aq)))
            h.eq('last norm', last * last, sq(h, b - np.dot(B, s.iterates[-2]), M))
            h.leq('residual of the normal equations small', s.Arnorm, rtol * s.Anorm * last)


def t_meig(h, n, kind, shift=False):
    "b is an eigenvector: one step"
    np = h.np
    T = h.mat('T', n, n, 'd', 'diag')
    h.assume(T[0, 0] * T[0, 0] >= h.const('1/1000000'))
    e = h.zeros(n)
    e[0] = h.real('beta', sign='+')
    h.assume(e[0] >= h.const('1/1000'))
    c = h.real('c', lo=-1, hi=1)
    s = h.sqrt(1 - c * c)
    if n == 2:
        Q = h.array([[c, -s], [s, c]])
        T, e = np.dot(Q, np.dot(T, Q.T)), np.dot(Q, e)
    kw, A = {}, T
    if shift:
        kw['shift'] = h.real('s')
        A = T + kw['shift'] * h.identity(n)
    c = Counted(h, A, symmetric=True)
    s = minres(h, c)
    s.solve(e, show=False, check=False, **kw)
    h.eq('solved', np.dot(T, s.x), e)
    h.claim('converged', s.converged)
    h.claim('one product', c.count == 1 and s.itn == 1)
    h.eq('residual', s.residNorm, h.const(0))


def t_mzero(h, n, pre, shift):
    np = h.np
    A = h.mat('A', n, n, 'd', 'sym')
    c = Counted(h, A, symmetric=True)
    P, M = precon(h, n, pre)
    b = h.zeros(n)
    s = minres(h, c, precon=P)
    s.solve(b, show=False, check=h.option('check', (True, False)), **(dict(shift=h.real('s')) if shift else {}))
    h.eq('zero solution', s.x, h.zeros(n))
    h.claim('converged', s.converged)
    h.eq('residual', s.residNorm, h.const(0))
    h.claim('no iterations', s.itn == 0 and s.istop == 0)


def t_mindef(h, n, where):
    "a preconditioner that is not positive definite is reported"
    np = h.np
    A = h.mat('A', n, n, 'd', 'sym')
    c = Counted(h, A, symmetric=True)
    M = h.mat('M', n, n, 'd', 'sym')
    b = h.vec('b', n)
    h.assume(np.dot(b, np.dot(M, b)) < 0)
    P = wrap(h, M, 'symherm')
    s = minres(h, c, **(dict(precon=P) if where == 'constructor' else {}))
    s.solve(b, show=False, check=False, **(dict(precon=P) if where == 'solve' else {}))
    h.claim('reported', s.istop == 9)
    h.claim('not converged', h.not_(s.converged))
    h.claim('no products', c.count == 0)


def t_mwhere(h, n, kind, steps):
    "a preconditioner given to solve is as good as one given to the constructor"
    np = h.np
    kw, c, A, B, b, P, M = symsystem(h, n, kind)
    s, t = minres(h, c, precon=P), minres(h, c)
    for m, k in ((s, {}), (t, dict(precon=P))):
        m.solve(b, show=False, check=False, itnlim=steps, rtol=h.const(0), **k)
    if not h.finite(s.x):
        return
    h.eq('same solution', s.x, t.x)
    h.eq('same norm', s.residNorm, t.residNorm)


def t_mpure(h, n, kind, steps, shift):
    np = h.np
    kw, c, A, B, b, P, M = symsystem(h, n, kind, shift)
    b = b + h.zeros(n)
    b0, A0 = b.copy(), A.copy()
    s = minres(h, c, precon=P)
    kw = dict(kw, show=False, check=False, itnlim=steps, rtol=h.const(0))
    s.solve(b, **kw)
    if not h.finite(s.x):
        return
    h.eq('right-hand side untouched', b, b0)
    h.eq('matrix untouched', A, A0)
    x, rn, n1, i1 = s.x, s.residNorm, s.nMatvec, s.istop
    x1 = x.copy()
    s.solve(b, **kw)
    h.eq('same again', s.x, x1)
    h.eq('first solution kept', x, x1)
    h.eq('same norm', s.residNorm, rn)
    h.claim('same count and status', h.and_(s.nMatvec == n1, s.istop == i1))
    x[:] = 3.0
    h.eq('not shared', b, b0)


def t_mother(h, n, steps):
    np = h.np
    kw, c, A, B, b, P, M = symsystem(h, n, 'basis')
    kw = dict(show=False, check=False, itnlim=steps, rtol=h.const(0))
    d = h.zeros(n)
    d[0] = h.real('d', sign='+')
    h.assume(d[0] >= h.const('1/1000'))
    s, t = minres(h, c), minres(h, c)
    s.solve(d, **kw)
    s.solve(b, **kw)
    t.solve(b, **kw)
    if not h.finite(t.x):
        return
    h.eq('solution', s.x, t.x)
    h.eq('norm', s.residNorm, t.residNorm)
    h.claim('status', h.and_(s.istop == t.istop, s.nMatvec == t.nMatvec, s.converged == t.converged))


def t_mcheck(h, n, pre):
    "a symmetric operator and preconditioner pass the symmetry checks"
    np = h.np
    kw, c, A, B, b, P, M = symsystem(h, n, 'diag' if pre else 'basis')
    s = minres(h, c, precon=P)
    s.solve(b, show=False, check=True, itnlim=1)
    h.claim('accepted', h.and_(s.istop != 7, s.istop != 8))
    h.claim('iterated', s.itn == 1)


def t_mwindow(h, n, steps, window, kind='basis'):
    "the stop on the truncated error"
    np = h.np
    kw, c, A, B, b, P, M = symsystem(h, n, kind)
    etol = h.real('etol', lo=0, hi=1)
    s = minres(h, c)
    s.solve(b, show=False, check=False, itnlim=steps, rtol=h.const(0), etol=etol, window=window, store_iterates=True)
    if not h.finite(s.x):
        return
    d = np.dot(B, s.iterates[-1] - s.iterates[-1 - window]) if s.itn > window else None
    if d is not None:
        w = np.dot(B, s.x)
        dd, ww = np.dot(d, d), etol * etol * np.dot(w, w)
        if s.istop == 10:
            h.claim('small change', dd < ww)
        elif s.istop != -1:
            h.leq('change not small', ww, dd)
    else:
        h.claim('no stop before the window is full', s.istop != 10)


@prop('M02', MODS, total_s=90)
def m02(tier):
    bd = 'nonsingular A - shift I, n<=3, up to 3 steps'

    def case(name, fn, **kw):
        return Case('MINRES ' + name, fn, bound=bd, params=Params(**K), **kw)
    for n, st, w in ((8, 7, 5), (8, 7, 3), (12, 11, 5)):
        yield case('deep window n=%d steps=%d window=%d' % (n, st, w), t_mwindow, n=n, steps=st, window=w, kind='deep')
    for n, kind, top in [(8, 'deepone', 7), (6, 'deepspdone', 5), (5, 'deeponeP', 4), (1, 'basis', 3), (2, 'basis', 2), (2, 'rot', 2), (2, 'diag', 2), (3, 'basis', 3)]:
        for shift in (False, True):
            if n == 3 and shift:
                continue
            yield case('status n=%d %s max<=%d shift=%s' % (n, kind, top, shift), t_mstatus, n=n, kind=kind, top=top,
                       shift=shift)
    for n, st, w in ((2, 2, 1), (3, 2, 1)) + (((3, 3, 1), (3, 3, 2)) if tier == 'thorough' else ()):
        yield case('window n=%d steps=%d window=%d' % (n, st, w), t_mwindow, n=n, steps=st, window=w)


# ----------------------------------------------------------------------------- M03 SYMMLQ

def symmlq(h, c, **kw):
    return h.mod('pykrylov.symmlq').Symmlq(c.op, **kw)


def t_sstatus(h, n, kind, top, shift=False):
    np = h.np
    kw, c, A, B, b, P, M = symsystem(h, n, kind, shift)
    if n == 3:
        rtol, lim = h.const(0), top
    else:
        rtol = h.real('rtol', lo=0, hi=1)
        lim = h.int('lim', 0, top)
    s = symmlq(h, c, precon=P)
    s.solve(b, matvec_max=lim, rtol=rtol, **kw)
    x = s.x
    if not h.finite(x):
        return
    r = b - np.dot(B, x)
    h.eq('residual norm', s.residNorm * s.residNorm, np.dot(r, r))
    h.eq('norm of the solution', s.xNorm * s.xNorm, np.dot(x, x))
    h.claim('not negative', h.and_(s.residNorm >= 0, s.xNorm >= 0))
    h.claim('same solution under its names', s.x is s.bestSolution)
    h.claim('products are counted', s.nMatvec == c.count)
    h.claim('limit respected', h.or_(c.count <= lim + 1, c.count <= 2))
    opnorm(h, kind, B, b, M, c.count - 1 if lim > 0 else 0, s.anorm)
    if n == 3:
        return
    conv = h.decide(s.converged)
    if not conv:
        h.claim('not converged: limit reached or ill-conditioned',
                h.or_(c.count == lim + 1, h.and_(lim == 0, c.count == 2), s.istop == 3, s.istop == 4))
    else:
        h.claim('converged: a convergence status', h.or_(s.istop == -1, s.istop == 1, s.istop == 2))
        if s.istop == 1 and M is None:
            h.leq('residual small', s.residNorm, rtol * s.anorm * s.xNorm)


def t_sgalerkin(h, n, kind, steps, shift=False):
    np = h.np
    kw, c, A, B, b, P, M = symsystem(h, n, kind, shift)
    s = symmlq(h, c, precon=P)
    s.solve(b, matvec_max=steps, rtol=h.const(0), **kw)
    x = s.x
    if not h.finite(x):
        return
    r = b - np.dot(B, x)
    k = s.nMatvec - 1
    v = b
    for j in range(k - 1):
        v = v if M is None else np.dot(M, v)
        h.eq('orthogonal to Krylov vector %d' % j, np.dot(r, v), h.const(0))
        v = np.dot(B, v)


def t_ssolve(h, n, kind, shift=False, eig=False):
    "with the default limit, solved"
    np = h.np
    kw, c, A, B, b, P, M = symsystem(h, n, kind, shift)
    s = symmlq(h, c, precon=P)
    s.solve(b, rtol=h.const(0), **kw)
    x = s.x
    if not h.finite(x):
        return
    if h.decide(s.converged):
        if s.istop == 1 and not kind.startswith('deep'):
            h.eq('solved', np.dot(B, x), b)
        elif M is None:
            # stopped because a quantity fell below the machine epsilon
            r = b - np.dot(B, x)
            h.leq('solved to machine precision', np.dot(r, r), h.const('1/1000000000000') * (
                np.dot(b, b) + np.sum(B * B) * np.dot(x, x)))
    h.claim('limit respected', c.count <= 2 * n + 3)


@prop('M03', MODS, total_s=90)
def m03(tier):
    bd = 'nonsingular A - shift I, n<=3, up to 4 products'

    def case(name, fn, **kw):
        return Case('SYMMLQ ' + name, fn, bound=bd, params=Params(**K), **kw)
    for n, kind, top in [(8, 'deepone', 7), (6, 'deepspdone', 5), (5, 'deeponeP', 4), (1, 'basis', 3), (2, 'basis', 2), (2, 'basis', 3), (2, 'rot', 2), (2, 'diag', 2), (3, 'basis', 2), (3, 'basis', 3)]:
        for shift in (False, True):
            if n == 3 and shift:
                continue
            yield case('status n=%d %s max<=%d shift=%s' % (n, kind, top, shift), t_sstatus, n=n, kind=kind, top=top,
                       shift=shift)
    for n, kind, st in [(8, 'deep', 6), (12, 'deep', 8), (6, 'deepspd', 5), (5, 'deepP', 4), (2, 'basis', 2), (2, 'rot', 2), (2, 'diag', 2), (2, 'lower', 2), (3, 'basis', 2), (3, 'basis', 3), (3, 'diag', 3)]:
        for shift in (False, True):
            yield case('Galerkin n=%d %s steps=%d shift=%s' % (n, kind, st, shift), t_sgalerkin, n=n, kind=kind, steps=st,
                       shift=shift)
    for n, kind in [(6, 'deep'), (5, 'deepspd'), (1, 'basis'), (1, 'factor'), (2, 'basis'), (2, 'rot'), (2, 'diag')]:
        for shift in (False, True):
            yield case('solves n=%d %s shift=%s' % (n, kind, shift), t_ssolve, n=n, kind=kind, shift=shift)


# ------------------------------------------------- M04 special systems, inputs, repeated use

def t_szero(h, n, pre, shift):
    np = h.np
    A = h.mat('A', n, n, 'd', 'sym')
    c = Counted(h, A, symmetric=True)
    P, M = precon(h, n, pre)
    s = symmlq(h, c, precon=P)
    s.solve(h.zeros(n), check=h.option('check', (True, False)), **(dict(shift=h.real('s', nz=True)) if shift else {}))
    h.eq('zero solution', s.x, h.zeros(n))
    h.claim('converged', s.converged)
    h.eq('residual', s.residNorm, h.const(0))
    h.claim('status', s.istop == 0)
    h.claim('at most one product', c.count <= 1 and s.nMatvec == c.count)


def t_sindef(h, n):
    np = h.np
    A = h.mat('A', n, n, 'd', 'sym')
    c = Counted(h, A, symmetric=True)
    M = h.mat('M', n, n, 'd', 'sym')
    b = h.vec('b', n)
    h.assume(np.dot(b, np.dot(M, b)) < 0)
    s = symmlq(h, c, precon=wrap(h, M, 'symherm'))
    s.solve(b)
    h.claim('reported', s.istop == 8)
    h.claim('not converged', h.not_(s.converged))


def t_seig(h, n, shift=False):
    np = h.np
    T = h.mat('T', n, n, 'd', 'diag')
    h.assume(T[0, 0] * T[0, 0] >= h.const('1/1000000'))
    e = h.zeros(n)
    e[0] = h.real('beta', sign='+')
    h.assume(e[0] >= h.const('1/1000'))
    if n == 2:
        c = h.real('c', lo=-1, hi=1)
        s = h.sqrt(1 - c * c)
        Q = h.array([[c, -s], [s, c]])
        T, e = np.dot(Q, np.dot(T, Q.T)), np.dot(Q, e)
    kw, A = {}, T
    if shift:
        kw['shift'] = h.real('s', nz=True)
        A = T + kw['shift'] * h.identity(n)
    c = Counted(h, A, symmetric=True)
    s = symmlq(h, c)
    lim = h.int('lim', 0, 2)
    s.solve(e, matvec_max=lim, **kw)
    if h.decide(lim == 0):
        h.claim('no time to converge', h.not_(s.converged))
    else:
        h.eq('solved', np.dot(T, s.x), e)
        h.claim('converged', s.converged)
    h.claim('two products', c.count == 2 and s.nMatvec == 2)


def t_spure(h, n, kind, steps, shift):
    np = h.np
    kw, c, A, B, b, P, M = symsystem(h, n, kind, shift)
    b = b + h.zeros(n)
    b0, A0 = b.copy(), A.copy()
    s = symmlq(h, c, precon=P)
    kw = dict(kw, matvec_max=steps, rtol=h.const(0))
    s.solve(b, **kw)
    if not h.finite(s.x):
        return
    h.eq('right-hand side untouched', b, b0)
    h.eq('matrix untouched', A, A0)
    x, rn, n1, i1 = s.x, s.residNorm, s.nMatvec, s.istop
    x1 = x.copy()
    s.solve(b, **kw)
    h.eq('same again', s.x, x1)
    h.eq('first solution kept', x, x1)
    h.eq('same norm', s.residNorm, rn)
    h.claim('same count and status', h.and_(s.nMatvec == n1, s.istop == i1))
    x[:] = 3.0
    h.eq('not shared', b, b0)


def t_sother(h, n, steps):
    np = h.np
    kw, c, A, B, b, P, M = symsystem(h, n, 'basis')
    kw = dict(matvec_max=steps, rtol=h.const(0))
    d = h.zeros(n)
    d[0] = h.real('d', sign='+')
    h.assume(d[0] >= h.const('1/1000'))
    s, t = symmlq(h, c), symmlq(h, c)
    s.solve(d, **kw)
    s.solve(b, **kw)
    t.solve(b, **kw)
    if not h.finite(t.x):
        return
    h.eq('solution', s.x, t.x)
    h.eq('norm', s.residNorm, t.residNorm)
    h.claim('status', h.and_(s.istop == t.istop, s.nMatvec == t.nMatvec, s.converged == t.converged))


def t_scheck(h, n, pre):
    np = h.np
    kw, c, A, B, b, P, M = symsystem(h, n, 'diag' if pre else 'basis')
    s = symmlq(h, c, precon=P)
    s.solve(b, check=True, matvec_max=2)
    h.claim('accepted', h.and_(s.istop != 6, s.istop != 7))


def t_int(h, meth, n):
    "integer right-hand sides"
    np = h.np
    T = h.mat('T', n, n, 'd', 'tri')
    b = h.zeros(n, 'i')
    b[0] = h.int('b', 1, 5)
    regular(h, n, T, h.const(1))
    c = Counted(h, T, symmetric=True)
    out = []
    for v in (b, b.astype('float64')):
        if meth == 'MINRES':
            s = minres(h, c)
            s.solve(v, show=False, check=False, itnlim=n, rtol=h.const(0))
        else:
            s = symmlq(h, c)
            s.solve(v, matvec_max=n, rtol=h.const(0))
        out.append(s)
    if not h.finite(out[1].x):
        return
    h.eq('same solution', out[0].x, out[1].x)
    h.eq('same norm', out[0].residNorm, out[1].residNorm)


@prop('M04', MODS, total_s=90)
def m04(tier):
    bd = 'n<=3, up to 3 steps'
    shifts = (False, True)

    def case(name, fn, **kw):
        return Case('MINRES ' + name, fn, bound=bd, params=Params(**K), **kw)
    for n in (1, 2):
        for shift in (False, True):
            yield case('eigenvector n=%d shift=%s' % (n, shift), t_meig, n=n, kind='', shift=shift)
    for n in (1, 2):
        for pre in (None, 'diag'):
            for shift in (False, True):
                yield case('zero n=%d precon=%s shift=%s' % (n, pre, shift), t_mzero, n=n, pre=pre, shift=shift)
        for where in ('constructor', 'solve'):
            yield case('indefinite n=%d %s' % (n, where), t_mindef, n=n, where=where)
    yield case('where n=1', t_mwhere, n=1, kind='factor', steps=1)
    yield case('where n=2', t_mwhere, n=2, kind='diag', steps=2)
    for n, kind, st, shift in ((1, 'basis', 2, True), (2, 'basis', 2, False), (2, 'rot', 2, True), (2, 'diag', 2, False),
                               (3, 'basis', 3, False), (6, 'deep', 6, True), (5, 'deepP', 4, False)):
        yield case('pure n=%d %s steps=%d shift=%s' % (n, kind, st, shift), t_mpure, n=n, kind=kind, steps=st, shift=shift)
    for n in (1, 2, 3):
        yield case('other n=%d' % n, t_mother, n=n, steps=min(n, 2))
    for n in (1, 2):
        for pre in (False, True):
            yield case('check n=%d precon=%s' % (n, pre), t_mcheck, n=n, pre=pre)

    def case(name, fn, **kw):
        return Case('SYMMLQ ' + name, fn, bound=bd, params=Params(**K), **kw)
    for n in (1, 2):
        for shift in shifts:
            yield case('eigenvector n=%d shift=%s' % (n, shift), t_seig, n=n, shift=shift)
            for pre in (None, 'diag'):
                yield case('zero n=%d precon=%s shift=%s' % (n, pre, shift), t_szero, n=n, pre=pre, shift=shift)
        yield case('indefinite n=%d' % n, t_sindef, n=n)
        for pre in (False, True):
            yield case('check n=%d precon=%s' % (n, pre), t_scheck, n=n, pre=pre)
        yield case('other n=%d' % n, t_sother, n=n, steps=2)
        for meth in ('MINRES', 'SYMMLQ'):
            yield Case('%s integers n=%d' % (meth, n), t_int, bound=bd, params=Params(**K), meth=meth, n=n)
    for n, kind, st, shift in ((1, 'basis', 2, True), (2, 'basis', 2, False), (2, 'rot', 2, True), (2, 'diag', 2, False),
                               (3, 'basis', 2, False), (6, 'deep', 6, True), (5, 'deepP', 4, False)):
        yield case('pure n=%d %s steps=%d shift=%s' % (n, kind, st, shift), t_spure, n=n, kind=kind, steps=st, shift=shift)
