"""A solver object can be used again: nothing is left over from an earlier solve."""
from ._util import *
from . import krylov, symm, lls
from .krylov import Counted, K, CUT, SOLVERS

MODS = ['pykrylov.linop', 'pykrylov.minres', 'pykrylov.symmlq'] + sorted(SOLVERS.values()) \
    + sorted(m for m, _ in lls.CLS.values())


def public(s):
    "what a user can read off the solver"
    return dict((k, v) for k, v in vars(s).items() if not k.startswith('_'))


def truth(v):
    return type(v).__name__ in ('bool', 'bool_', 'SymBool')


def same(h, label, a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        h.claim('%s: %d entries' % (label, len(b)), len(a) == len(b))
        if len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                same(h, '%s[%d]' % (label, i), x, y)
        return
    if a is None or b is None:
        h.claim(label + ' is there in both or in neither', a is None and b is None)
    elif truth(a) and truth(b):
        h.claim(label, h.or_(h.and_(a, b), h.and_(h.not_(a), h.not_(b))))
    elif all(type(v).__name__ in ('Ite', 'int', 'str') for v in (a, b)):
        # a count, a code or a text; the engine may hold it as a choice between plain values
        h.claim(label, a == b)
    elif h.isnum(a) and h.isnum(b) or hasattr(a, 'shape') and hasattr(b, 'shape'):
        h.eq(label, a, b)


def compare(h, used, fresh):
    u, f = public(used), public(fresh)
    # an attribute an early exit leaves unset on the fresh object may keep its old value,
    # but not one saying how the solve ended
    h.claim('no status of an earlier solve', ('status' in u) == ('status' in f))
    for k in sorted(f):
        if k in u and k not in ('A', 'op', 'precon', 'logger', 'prefix', 'msg'):
            same(h, k, u[k], f[k])


def t_square(h, meth, n, first, second):
    "one of the iterative methods for square systems, after another solve"
    np = h.np
    c, A, b = krylov.system(h, meth, n, 'basis')
    kw = dict(abstol=h.const(0), reltol=h.const(0))
    s, t = (krylov.solver(h, meth)(c.op, **kw) for _ in range(2))
    store = dict(store_resids=True, store_iterates=True) if meth == 'CG' else {}
    d = h.zeros(n)
    if first != 'zero':
        for i in range(n):
            d[i] = h.const(i + 1)
    opts = dict(store)
    if first == 'guess':
        opts['guess'] = h.array([h.const(1)] * n)
    if first == 'no check':
        opts['check_curvature'] = False
    s.solve(d, matvec_max=2, **opts)
    if second == 'zero':
        b = h.zeros(n)
    last = dict(store) if second != 'plain' else {}
    last['matvec_max'] = 0 if second == 'none' else 2 if n > 1 else 1
    s.solve(b, **last)
    t.solve(b, **last)
    if h.finite(t.bestSolution):
        compare(h, s, t)


def t_symmetric(h, meth, n, first, second):
    np = h.np
    if first == 'generic':
        # a fixed matrix and any right-hand side
        A = h.array([[h.const(4 if i == j else -1 if abs(i - j) == 1 else 0) for j in range(n)] for i in range(n)])
        c, b = Counted(h, A, symmetric=True), h.vec('b', n)
        h.assume(b[0] >= h.const('1/1000'))
    else:
        kw, c, A, B, b, P, M = symm.symsystem(h, n, 'basis')
    new = symm.minres if meth == 'MINRES' else symm.symmlq
    s, t = new(h, c), new(h, c)

    def go(x, rhs, limit, store=True, **k):
        if meth == 'MINRES':
            opts = dict(show=False, check=False, itnlim=limit, rtol=h.const(0), etol=h.const(0),
                        store_resids=store, store_iterates=store)
            opts.update(k)
            x.solve(rhs, **opts)
        else:
            x.solve(rhs, rtol=h.const(0), matvec_max=limit + (1 if first == 'generic' else 2), store_iterates=store, **k)
    d = h.zeros(n)
    if first != 'zero':
        for i in range(n):
            d[i] = h.const(i + 1 if first == 'generic' or i == 0 else 0)
    if first == 'etol':
        # ends because the direct error is small
        go(s, d, n, etol=h.const(1000), window=1)
    else:
        go(s, d, 1, **(dict(shift=h.const('1/2')) if first == 'shift' else {}))
    if second == 'zero':
        b = h.zeros(n)
    limit = 0 if second == 'none' else max(n - 1, 1) if first == 'generic' else n
    for x in s, t:
        go(x, b, limit, second != 'plain')
    if h.finite(t.bestSolution):
        compare(h, s, t)


def t_lls(h, meth, m, n, first, second):
    p = lls.Problem(h, m, n, 'basis')
    c = h.zeros(m)
    if first != 'zero':
        for i in range(m):
            c[i] = h.const(i + 1 if (first == 'generic' and m == n) or i == 0 else 0)
    s, t = (lls.solver(h, meth, p.op) for _ in range(2))
    kw = dict(store_resids=True, store_iterates=True)
    k1 = dict(kw)
    if meth in ('LSQR', 'CRAIG') and first == 'var':
        k1['wantvar'] = True
    lls.solve(h, s, meth, p, 1, h.const('1/2') if first == 'damped' and meth[:2] == 'LS' else None, b=c, **k1)
    if second == 'zero':
        kw['b'] = h.zeros(m)
    if second == 'plain':
        kw = {}
    steps = 0 if second == 'none' else 2
    if meth in ('LSQR', 'CRAIG') and second == 'none':
        steps = 1
    lls.solve(h, s, meth, p, steps, **kw)
    lls.solve(h, t, meth, p, steps, **kw)
    if h.finite(t.x):
        compare(h, s, t)


@prop('R01', MODS, total_s=90)
def r01(tier):
    b = 'two solves, the first with a fixed right-hand side, the second with any in condensed form; n<=2 (thorough: 3)'
    sizes = (1, 2) if tier == 'quick' else (1, 2, 3)
    for n in sizes:
        for second in ('full', 'plain', 'zero', 'none'):
            for meth in ('CG', 'CGS', 'BiCGSTAB', 'TFQMR'):
                for first in ('zero', 'generic', 'guess') + (('no check',) if meth == 'CG' else ()):
                    yield Case('%s n=%d after %s: %s' % (meth, n, first, second), t_square, bound=b,
                               params=Params(**(CUT if first == 'no check' else krylov.policy(meth))),
                               meth=meth, n=n, first=first, second=second)
            for meth in ('MINRES', 'SYMMLQ'):
                for first in ('zero', 'generic', 'shift') + (('etol',) if meth == 'MINRES' else ()):
                    yield Case('%s n=%d after %s: %s' % (meth, n, first, second), t_symmetric, bound=b,
                               params=Params(**K), meth=meth, n=n, first=first, second=second)
            if n > 1:
                for meth in lls.ALL:
                    for first in ('zero', 'generic', 'var', 'damped'):
                        if first == 'var' and meth not in ('LSQR', 'CRAIG') or first == 'damped' and meth[:2] != 'LS':
                            continue
                        for mm in ((n, n + 1) if second == 'full' else (n,)):
                            yield Case('%s %dx%d after %s: %s' % (meth, mm, n, first, second), t_lls, bound=b,
                                       params=Params(**K), lemmas=lls.LEMMAS if meth == 'LSMR' else (),
                                       meth=meth, m=mm, n=n, first=first, second=second)
