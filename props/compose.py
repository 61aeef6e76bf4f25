"""What a method does depends on the matrices of its operators, not on how the operators are built."""
from ._util import *
from . import krylov, symm, lls, lbfgs, reuse
from .krylov import K, CUT, SOLVERS
from .options import compare

MODS = reuse.MODS + ['pykrylov.linop.lbfgs']
SYMM = ('CG', 'MINRES', 'SYMMLQ')


def skew(h, n):
    "a fixed matrix with determinant one, and its inverse"
    F, G = h.zeros((n, n)), h.zeros((n, n))
    for i in range(n):
        F[i, i] = G[i, i] = h.const(1)
        if i:
            F[i, i - 1] = h.const(2)
        for j in range(i):
            G[i, j] = h.const((-2) ** (i - j))
    return F, G


def form(h, how, A, flags):
    "an operator with the matrix A, built in the way given; flags: those of a symmetric one"
    np, L = h.np, LO(h)
    m, n = A.shape
    E = h.zeros((m, n))
    for i in range(m):
        for j in range(n):
            E[i, j] = h.const(1 + (i + j) % 3)
    sym = bool(flags)
    one = lambda M: wrap(h, M, 'both', **flags)
    half = h.const('1/2')
    if how == 'plain':
        return one(A)
    if how == 'ndarray':
        return L.linop_from_ndarray(A, **flags)
    if how == 'coord':
        low = [(i, j) for i in range(m) for j in range(n) if not sym or j <= i]
        return L.CoordLinearOperator(h.array([A[i, j] for i, j in low]), np.array([i for i, j in low]),
                                     np.array([j for i, j in low]), n, m, symmetric=sym)
    if how == 'block':
        I, J = [(0, 1), (1, m)] if m > 1 else [(0, 1)], [(0, 1), (1, n)] if n > 1 else [(0, 1)]
        return L.BlockLinearOperator([[wrap(h, A[a:b, c:d], 'both', **(flags if a == c else {})) for c, d in J
                                       if not sym or c >= a] for a, b in I], symmetric=sym)
    if how == 'sum':
        return one(A - E) + one(E)
    if how == 'difference':
        return one(E) - one(E - A)
    if how == 'negative':
        return -one(-A)
    if how == 'scaled':
        return one(h.const(2) * A) * half
    if how == 'lscaled':
        return 2 * one(half * A)
    if how == 'quotient':
        return one(h.const(3) * A) / 3.0
    if how == 'transpose':
        return wrap(h, A.T, 'both').T
    if how == 'adjoint':
        return wrap(h, A.T, 'H').H
    if how == 'product':
        F, G = skew(h, n)
        if sym:
            return wrap(h, F) * (wrap(h, np.dot(G, np.dot(A, G.T)), 'sym') * wrap(h, F).T)
        return wrap(h, np.dot(A, F)) * wrap(h, G)
    if how == 'reduced':
        B = h.zeros((m + 1, n + 1))
        for i in range(m + 1):
            for j in range(n + 1):
                B[i, j] = h.const(5 + i + j)
        B[np.ix_([0] + list(range(2, m + 1)), [0] + list(range(2, n + 1)))] = A
        op = wrap(h, B, 'both', **flags)
        if sym:
            return L.SymmetricallyReducedLinearOperator(op, [0] + list(range(2, n + 1)))
        return L.ReducedLinearOperator(op, [0] + list(range(2, m + 1)), [0] + list(range(2, n + 1)))
    raise KeyError(how)


def weight(h, how, n, tag):
    "a positive definite operator built in the way given, and its matrix"
    np, L = h.np, LO(h)
    d = h.zeros(n)
    for i in range(n):
        d[i] = h.real('%s%d' % (tag, i), sign='+')
    M = np.diag(d)
    if how == 'diagonal':
        return L.DiagonalOperator(d), M
    if how == 'blocks':
        P = h.mod('pykrylov.linop.blkop').BlockDiagonalPreconditioner
        return P([L.DiagonalOperator(d[:1])] + ([L.DiagonalOperator(d[1:])] if n > 1 else [])), M
    if how == 'grid':
        P = h.mod('pykrylov.linop.blkop').BlockPreconditioner
        F = h.spd(tag, n)
        if n == 1:
            return P([[wrap(h, F, 'symherm')]]), F
        return P([[wrap(h, F[:1, :1], 'symherm'), wrap(h, F[:1, 1:])],
                  [wrap(h, F[1:, 1:], 'symherm')]], symmetric=True), F
    if how == 'bfgs':
        B = h.mod('pykrylov.linop.lbfgs').InverseLBFGSOperator(n, 2)
        s, y = h.zeros(n), h.zeros(n)
        for i in range(n):
            s[i] = h.const(1 + i)
            y[i] = h.const(2 - i)
        s[0] = d[0] + 1
        y[0] = h.const(2)
        h.assume(h.le(h.const('1/1000'), np.dot(s, y)))
        B.store(s, y)
        cols = [lbfgs.bfgs_inverse(h, n, [(s, y)], False, np.eye(n)[:, j] * h.const(1)) for j in range(n)]
        for i in range(n):
            for j in range(n):
                M[i, j] = cols[j][i]
        return B, M
    raise KeyError(how)


def t_form(h, meth, m, n, how, kind, steps, pre=None):
    np = h.np
    sym = meth in SYMM
    P = Q = None
    if meth in lls.ALL:
        p = lls.Problem(h, m, n, kind)
        A, b = p.A, p.b
    else:
        if kind.startswith('deep'):
            A, b = deep(h, n, 'spd' if meth == 'CG' else 'indef' if sym else 'full')
        else:
            A = h.mat('A', n, n, 'd', ('tri' if sym else 'hess') if n > 1 else 'full')
            b = h.zeros(n)
            b[0] = h.real('b', sign='+')
    flags = dict(symmetric=True) if sym else {}
    c, d = form(h, 'plain', A, flags), form(h, how, A, flags)
    if pre:
        P, M = weight(h, pre, n, 'm')
        Q = wrap(h, M, 'symherm')
    if meth in lls.ALL:
        for op, W in ((c, Q), (d, P)):
            s = lls.solver(h, meth, op)
            kw = dict((k, h.const(0)) for k in lls.OFF)
            if W is not None:
                kw['N'] = W
            with lls.Patched(h, meth):
                s.solve(b, itnlim=steps, **kw)
            if op is c:
                t = s
    elif meth in SOLVERS:
        new = krylov.solver(h, meth)
        tol = dict(abstol=h.real('abstol', lo=0), reltol=h.const(0))
        t, s = new(c, precon=Q, **tol), new(d, precon=P, **tol)
        t.solve(b, matvec_max=steps)
        s.solve(b, matvec_max=steps)
    else:
        cls = h.mod('pykrylov.minres').Minres if meth == 'MINRES' else h.mod('pykrylov.symmlq').Symmlq
        t, s = cls(c, precon=Q), cls(d, precon=P)
        kw = dict(matvec_max=steps + 2) if meth == 'SYMMLQ' else dict(itnlim=steps, check=False, show=False)
        t.solve(b, rtol=h.const(0), **kw)
        s.solve(b, rtol=h.const(0), **kw)
    if not h.finite(t.x if hasattr(t, 'x') else t.bestSolution):
        return
    compare(h, s, t, ('nMatvec',))
    if hasattr(t, 'nMatvec'):
        h.claim('as many products', s.nMatvec == t.nMatvec)
    h.claim('counted by the operator', d.nMatvec == c.nMatvec)


FORMS = ('ndarray', 'coord', 'block', 'sum', 'difference', 'negative', 'scaled', 'lscaled', 'quotient', 'transpose',
         'adjoint', 'product', 'reduced')


@prop('R04', MODS, total_s=90)
def r04(tier):
    b = 'n<=2, up to 3 steps; condensed systems'
    thorough = tier == 'thorough'
    for meth in ('CG', 'CGS', 'BiCGSTAB', 'TFQMR', 'MINRES', 'SYMMLQ') + lls.ALL:
        pol = dict(krylov.policy(meth)) if meth in SOLVERS else dict(K)
        kw = dict(params=Params(**pol), bound=b, meth=meth, lemmas=lls.LEMMAS if meth == 'LSMR' else ())
        sizes = [(2, 2, 2)] if meth in SOLVERS else [(2, 2, 1)] if meth not in lls.ALL else [(3, 2, 1), (2, 3, 1)]
        if thorough:
            sizes += [(3, 3, 3)]
        for m, n, st in sizes:
            for how in FORMS:
                yield Case('%s %dx%d %s' % (meth, m, n, how), t_form, m=m, n=n, how=how, kind='basis', steps=st, **kw)
            for pre in ('diagonal', 'blocks', 'grid', 'bfgs'):
                if n > 2:
                    continue
                if meth in ('MINRES', 'SYMMLQ') and pre in ('grid', 'bfgs'):
                    m = n = 1
                yield Case('%s %dx%d weight %s' % (meth, m, n, pre), t_form, m=m, n=n, how='plain', kind='basis',
                           steps=1, pre=pre, **kw)
        n, m = (4, 5) if meth in lls.ALL else (4, 4)
        for how in ('coord', 'block', 'product', 'reduced') if not thorough else FORMS:
            yield Case('%s %dx%d %s deep' % (meth, m, n, how), t_form, m=m, n=n, how=how, kind='deepone', steps=6 if
                       meth in SOLVERS else 2 if meth in ('LSMR', 'SYMMLQ') else 3, **kw)
