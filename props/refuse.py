"""Operators and preconditioners that the symmetric methods have to refuse."""
from fractions import Fraction
from ._util import *
from . import symm, krylov
from .krylov import K, CUT
from .reuse import compare

MODS = ['pykrylov.minres', 'pykrylov.symmlq', 'pykrylov.cg', 'pykrylov.tools.utils']
NEW = {'MINRES': symm.minres, 'SYMMLQ': symm.symmlq}
REFUSED = {'MINRES': {'operator': 7, 'precon': 8, 'indefinite': 9}, 'SYMMLQ': {'operator': 6, 'precon': 7, 'indefinite': 8}}


class Log(object):
    def __init__(self):
        self.said = []

    def error(self, *a):
        self.said.append('error')

    critical = warning = error

    def info(self, *a):
        self.said.append('info')

    debug = info


class Product(object):
    "the operator of a matrix; the vector of each of its first products is not negligible"
    def __init__(self, h, A, first=1, **kw):
        np = h.np
        self.count = 0

        def mv(v):
            self.count += 1
            if self.count <= first:
                h.assume(np.dot(v[-2:], v[-2:]) >= h.const('1/100'))
            return np.dot(A, v)
        self.op = LO(h).LinearOperator(A.shape[1], A.shape[0], matvec=mv, matvec_transp=lambda v: np.dot(A.T, v),
                                       dtype=A.dtype, **kw)


def skewed(h, n, name, positive=False):
    "a multiple of the identity plus a part that is clearly not symmetric"
    a = h.const(1) if n == 3 else h.real(name, lo=Fraction(1, 2) if positive else -1, hi=1)
    s = h.real(name + 's', lo=1, hi=4)
    A = h.zeros((n, n))
    for i in range(n):
        A[i, i] = a
    A[n - 2, n - 1], A[n - 1, n - 2] = s, -s
    return A


def rhs(h, n):
    b = h.vec('b', n)
    if n == 3:
        b[0] = h.const(1)
    h.assume(b[n - 1] >= h.const('1/2'))
    for i in range(n):
        h.assume(b[i] <= 1)
        h.assume(b[i] >= -1)
    return b


def run(h, meth, s, b, check, steps, **kw):
    if meth == 'MINRES':
        s.solve(b, show=False, check=check, itnlim=steps, rtol=h.const(0), etol=h.const(0), **kw)
    else:
        s.solve(b, check=check, matvec_max=steps + 1, rtol=h.const(0), **kw)


def refused(h, meth, s, why, n):
    h.claim('reported', s.istop == REFUSED[meth][why])
    h.claim('not converged', h.not_(s.converged))
    h.eq('no step taken', s.x, h.zeros(n))


def t_operator(h, meth, n, pre, shift):
    "the operator is not symmetric"
    np = h.np
    A = skewed(h, n, 'a')
    c = Product(h, A, symmetric=True)
    kw = dict(precon=LO(h).DiagonalOperator(h.array([h.const(2)] * n))) if pre else {}
    s = NEW[meth](h, c, **kw)
    run(h, meth, s, rhs(h, n), True, n, **(dict(shift=h.const('1/2')) if shift else {}))
    refused(h, meth, s, 'operator', n)


def t_precon(h, meth, n, where):
    "the preconditioner is not symmetric"
    np = h.np
    if n == 2 and where == 'breakdown':
        # the first product leaves nothing for a second direction: A P b = c b
        p = h.int('p', 1, 4)
        P = h.array([[h.const(1), p], [-p, h.const(1)]])
        A = h.array([[p * p + 1, p], [p, h.const(1)]])
        b = h.zeros(2)
        b[0] = h.const(1)
    else:
        P = skewed(h, n, 'p', True)
        A = h.array([[h.const(i + 1 if i == j else 0) for j in range(n)] for i in range(n)])
        b = rhs(h, n)
    p = Product(h, P, first=2, symmetric=True).op
    c = krylov.Counted(h, A, symmetric=True)
    s = NEW[meth](h, c, **({} if where == 'solve' else dict(precon=p)))
    run(h, meth, s, b, True, n, **(dict(precon=p) if where == 'solve' else {}))
    refused(h, meth, s, 'precon', n)


def t_later(h, meth, n):
    "a preconditioner whose indefiniteness comes out after some steps"
    np = h.np
    kw, c, A, B, b, P, M = symm.symsystem(h, n, 'basis')
    h.assume(b[0] <= 100)
    h.assume(h.and_(*[h.and_(A[i, j] <= 100, A[i, j] >= -100) for i in range(n) for j in range(n)]))
    # condensed form: the k-th direction is a multiple of e_k
    d = h.zeros(n)
    for i in range(n):
        d[i] = h.const(1)
    d[n - 1] = h.real('p', lo=-100, hi=0)
    h.assume(d[n - 1] <= -h.const('1/1000'))
    h.assume(h.and_(*[h.or_(A[i + 1, i] >= h.const('1/1000'), A[i + 1, i] <= -h.const('1/1000')) for i in range(n - 1)]))
    s = NEW[meth](h, c, precon=LO(h).DiagonalOperator(d))
    run(h, meth, s, b, False, n + 1)
    if not h.finite(s.x):
        return
    # a system that is numerically singular may stop earlier for another reason
    bad = REFUSED[meth]['indefinite']
    h.claim('reported', h.or_(s.istop == bad, *([s.istop == k for k in (1, 2, 3, 4)] if n > 2 or meth == 'SYMMLQ' else [])))
    h.claim('not taken for a solution', h.or_(s.istop != bad, h.not_(s.converged)))


def t_cg(h, n, earlier):
    "CG asked to check the symmetry of an operator that has none"
    np = h.np
    A = skewed(h, n, 'a', True)
    c, d = Product(h, A, first=2 if earlier == 'step' else 1), Product(h, A)
    log = Log()
    CG = h.mod('pykrylov.cg').CG
    s, t = CG(c.op, logger=log), CG(d.op)
    b = rhs(h, n)
    if earlier == 'zero':
        s.solve(h.zeros(n))
        h.claim('zero solved', s.converged)
    elif earlier:
        s.solve(b, matvec_max=1)
    before = len(log.said)
    s.solve(b, check_symmetric=True)
    t.solve(b, check_symmetric=True)
    h.claim('not converged', h.not_(s.converged))
    h.claim('an error is logged', 'error' in log.said[before:])
    h.claim('no solution', s.x is None and s.bestSolution is None)
    compare(h, s, t)


def t_cgsym(h, n):
    "the check changes nothing for a symmetric operator"
    np = h.np
    A = h.mat('A', n, n, 'd', 'diag')
    for i in range(n):
        h.assume(A[i, i] >= h.const('1/10'))
    c = krylov.Counted(h, A, symmetric=True)
    b = h.vec('b', n)
    CG = h.mod('pykrylov.cg').CG
    out = []
    for chk in (True, False):
        s = CG(c.op, abstol=h.const(0), reltol=h.const(0))
        s.solve(b, check_symmetric=chk, matvec_max=1)
        out.append(s)
    if h.finite(out[1].x):
        compare(h, out[0], out[1])


@prop('M05', MODS, total_s=90)
def m05(tier):
    bd = 'n<=3'

    def case(name, fn, **kw):
        return Case(name, fn, bound=bd, params=Params(**K), **kw)
    for meth in ('MINRES', 'SYMMLQ'):
        for n in (2, 3):
            for pre in (False, True):
                for shift in (False, True):
                    yield case('%s operator n=%d precon=%s shift=%s' % (meth, n, pre, shift), t_operator, meth=meth, n=n, pre=pre, shift=shift)
            for where in (('constructor', 'solve') if meth == 'MINRES' else ('constructor',)):
                yield case('%s preconditioner n=%d %s' % (meth, n, where), t_precon, meth=meth, n=n, where=where)
            yield case('%s later n=%d' % (meth, n), t_later, meth=meth, n=n)
        yield case('%s preconditioner breakdown' % meth, t_precon, meth=meth, n=2, where='breakdown')
    for n in (2, 3):
        for earlier in ('', 'zero', 'step'):
            yield case('CG operator n=%d earlier=%s' % (n, earlier or 'none'), t_cg, n=n, earlier=earlier)
    for n in (1, 2):
        yield case('CG symmetric n=%d' % n, t_cgsym, n=n)
