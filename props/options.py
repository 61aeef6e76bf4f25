"""Options: reporting changes no result; what is left out takes its documented value."""
import contextlib
import io
from ._util import *
from . import krylov, symm, lls, reuse
from .krylov import Counted, K, SOLVERS
from .reuse import public, same

MODS = reuse.MODS


class Log(object):
    "a logger that keeps everything it is told"
    def __init__(self):
        self.said = []

    def info(self, msg, *args):
        self.said.append(msg)

    debug = warning = error = info


class Havoc(object):
    "an operator that answers with the vectors it is given: nothing converges, so limits are reached"
    def __init__(self, h, m, n, out, back=(), **kw):
        self.count = self.backs = 0

        def mv(v):
            self.count += 1
            return out[self.count - 1].copy()

        def tr(v):
            self.backs += 1
            return back[self.backs - 1].copy()
        if back:
            kw['matvec_transp'] = tr
        self.op = LO(h).LinearOperator(n, m, matvec=mv, **kw)


def quietly(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def compare(h, a, b, skip=()):
    u, f = public(a), public(b)
    h.claim('the same attributes', sorted(u) == sorted(f))
    for k in sorted(f):
        if k in u and k not in ('A', 'op', 'precon', 'logger', 'prefix', 'msg') and k not in skip \
                and not (skip is STORED and k.startswith('iterates')):
            same(h, k, u[k], f[k])


STORED = ('resids', 'iterates', 'residHistory', 'dir_errors_window', 'norms', 'normal_eqns_resids')


# ------------------------------------------------------------- R02 reporting changes no result

def t_report_square(h, meth, n, kind, mm, guess, pre):
    c, A, b = krylov.system(h, meth, n, kind)
    kw = dict(matvec_max=mm + guess)
    b = krylov.guess_of(h, kw, guess, n, 'd', A, b)
    P, M = krylov.precon(h, n, pre)
    tol = dict(abstol=h.real('abstol', lo=0), reltol=h.const(0), precon=P)
    log = Log()
    new = krylov.solver(h, meth)
    d = Counted(h, A, **(dict(hermitian=True) if meth == 'CG' else {}))
    s, t = new(c.op, **tol), new(d.op, logger=log, **tol)
    s.solve(b, **kw)
    more = {}
    if meth == 'CG':
        more = dict(store_resids=True, store_iterates=True, check_symmetric=False)
    quietly(lambda: t.solve(b, **dict(kw, **more)))
    if not h.finite(s.bestSolution):
        return
    compare(h, t, s, STORED if more else ())
    h.claim('the same products', c.count == d.count)
    h.claim('the logger is told', len(log.said) > 0)


def t_report_symmetric(h, meth, n, kind, steps, shift):
    kw, c, A, B, b, P, M = symm.symsystem(h, n, kind, shift)
    d = Counted(h, A, symmetric=True)
    log = Log()
    if meth == 'MINRES':
        s, t = symm.minres(h, c, precon=P), symm.minres(h, d, precon=P, logger=log)
        kw = dict(kw, itnlim=steps, rtol=h.const(0), check=False)
        quiet, loud = dict(show=False), dict(show=True, store_resids=True, store_iterates=True)
    else:
        s, t = symm.symmlq(h, c, precon=P), symm.symmlq(h, d, precon=P, logger=log)
        kw = dict(kw, matvec_max=steps + 2, rtol=h.const(0))
        quiet, loud = {}, dict(store_iterates=True)
    s.solve(b, **dict(kw, **quiet))
    quietly(lambda: t.solve(b, **dict(kw, **loud)))
    if not h.finite(s.bestSolution):
        return
    compare(h, t, s, ('iterates', 'resids'))
    h.claim('the same products', c.count == d.count)


def t_check(h, meth, n, pre):
    "checks of a symmetric operator and preconditioner that hold change no result"
    np = h.np
    A = h.mat('A', n, n, 'd', 'sym')
    b = h.zeros(n)
    b[0] = h.const(1)
    P, M = krylov.precon(h, n, pre)
    c, d = Counted(h, A, symmetric=True), Counted(h, A, symmetric=True)
    if meth == 'MINRES':
        s, t = symm.minres(h, c, precon=P), symm.minres(h, d, precon=P)
        kw, on = dict(show=False, itnlim=1, rtol=h.const(0)), 'check'
    elif meth == 'SYMMLQ':
        s, t = symm.symmlq(h, c, precon=P), symm.symmlq(h, d, precon=P)
        kw, on = dict(matvec_max=2, rtol=h.const(0)), 'check'
    else:
        new = krylov.solver(h, meth)
        s, t = new(c.op, precon=P), new(d.op, precon=P)
        kw, on = dict(matvec_max=1), 'check_symmetric'
    s.solve(b, **dict(kw, **{on: False}))
    t.solve(b, **dict(kw, **{on: True}))
    if h.finite(s.bestSolution):
        compare(h, t, s)


def t_report_lls(h, meth, m, n, weights, steps, damp):
    np = h.np
    p = lls.Problem(h, m, n, 'basis', weights)
    s, t = (lls.solver(h, meth, p.op) for _ in range(2))
    kw = {}
    if damp:
        kw['damp'] = h.const('1/2')
    lls.solve(h, s, meth, p, steps, **kw)
    quietly(lambda: lls.solve(h, t, meth, p, steps, show=True, store_resids=True, store_iterates=True, **kw))
    if h.finite(s.x):
        compare(h, t, s, STORED)
        kept = [k for k in public(t) if k.startswith('iterates')]
        h.claim('iterates are kept when asked for', len(kept) > 0 and all(
            len(getattr(t, k)) == t.itn + 1 and len(getattr(s, k)) == 0 for k in kept))


@prop('R02', MODS, total_s=90)
def r02(tier):
    b = 'n<=3, up to 3 steps; condensed systems'
    for meth in ('CG', 'CGS', 'BiCGSTAB', 'TFQMR'):
        for n, kind, mm in ((1, 'full', 2), (2, 'basis', 2), (2, 'full', 1)) + (((2, 'basis', 4),) if meth != 'TFQMR' else ()):
            for guess in (False, True):
                for pre in (None, 'diag'):
                    if guess and (pre or kind == 'basis') or pre and mm > 2:
                        continue
                    yield Case('%s n=%d %s max=%d guess=%s precon=%s' % (meth, n, kind, mm, guess, pre),
                               t_report_square, bound=b, params=Params(**krylov.policy(meth)), meth=meth, n=n,
                               kind=kind, mm=mm, guess=guess, pre=pre)
    for meth in ('MINRES', 'SYMMLQ'):
        for n, kind, st in ((1, 'basis', 1), (2, 'basis', 1), (2, 'basis', 2), (2, 'diag', 2), (3, 'basis', 3)):
            if meth == 'SYMMLQ' and n == 3:
                continue
            for shift in (False, True):
                yield Case('%s n=%d %s steps=%d shift=%s' % (meth, n, kind, st, shift), t_report_symmetric, bound=b,
                           params=Params(**K), meth=meth, n=n, kind=kind, steps=st, shift=shift)
    for meth in ('CG', 'MINRES', 'SYMMLQ'):
        for n, pre in ((1, None), (1, 'diag')) + (((2, None),) if meth != 'MINRES' else ()):
            yield Case('%s n=%d precon=%s checked' % (meth, n, pre), t_check, bound=b, params=Params(**K), meth=meth,
                       n=n, pre=pre)
    for meth in lls.ALL:
        for m, n, w, st in ((2, 1, '', 1), (2, 2, '', 1), (2, 2, '', 2), (3, 2, '', 2), (2, 3, '', 2),
                            (2, 2, 'mn', 2), (3, 3, '', 3)):
            if (w or n == 3) and meth in ('CRAIG', 'CRAIGMR'):
                continue
            for damp in (False, True):
                if damp and meth[:2] != 'LS' or damp and n == 3:
                    continue
                yield Case('%s %dx%d %s steps=%d damp=%s' % (meth, m, n, w, st, damp), t_report_lls, bound=b,
                           params=Params(**K), lemmas=lls.LEMMAS if meth == 'LSMR' else (), meth=meth, m=m, n=n,
                           weights=w, steps=st, damp=damp)


# ------------------------------------------------- R03 options left out take documented values

def answer(h, i, n):
    "some vector, different for every i"
    v = h.zeros(n)
    for j in range(n):
        v[j] = h.const(1 + (i * i + 3 * j + i * j) % 7)
    return v


def t_default_square(h, meth, n, how, guess=False):
    np = h.np
    if how == 'havoc':
        W = [h.vec('w%d' % i, n) if i == 0 else answer(h, i, n) for i in range(2 * n + 2)]
        c, d = (Havoc(h, n, n, W) for _ in range(2))
        b = h.zeros(n)
        b[0] = h.const(1)
        tol = [h.const(0), h.const(0)]
    else:
        c, A, b = krylov.system(h, meth, n, 'basis')
        d = Counted(h, A, **(dict(hermitian=True) if meth == 'CG' else {}))
        tol = [1.0e-8, 1.0e-6]
    new = krylov.solver(h, meth)
    skip = ()
    full = dict(matvec_max=2 * n + (1 if guess and meth in ('CGS', 'TFQMR') else 0))
    part = {}
    if guess:
        g = h.zeros(n)
        g[n - 1] = h.const(1)
        full['guess'] = part['guess'] = g
    elif how == 'matrix':
        # the same as none, but for a product
        full['guess'] = h.zeros(n)
        full['matvec_max'] = 2 * n + 1
        skip = ('nMatvec',)
    if meth == 'CG':
        full.update(check_symmetric=False, check_curvature=True, store_resids=False, store_iterates=False)
    s = new(c.op, abstol=tol[0], reltol=tol[1], precon=None)
    t = new(d.op, **(dict(abstol=tol[0], reltol=tol[1]) if how == 'havoc' else {}))
    s.solve(b, **full)
    t.solve(b, **part)
    if h.finite(s.bestSolution):
        compare(h, t, s, skip)
        if not skip:
            h.claim('the same products', c.count == d.count)


def t_default_symmlq(h, n, how):
    np = h.np
    kw, c, A, B, b, P, M = symm.symsystem(h, n, 'basis')
    d = Counted(h, A, symmetric=True)
    s, t = symm.symmlq(h, c), symm.symmlq(h, d)
    if how == 'havoc':
        W = [answer(h, i, n) for i in range(2 * n + 4)]
        c, d = (Havoc(h, n, n, W, symmetric=True) for _ in range(2))
        s, t = symm.symmlq(h, c), symm.symmlq(h, d)
        s.solve(b, matvec_max=2 * n + 2, rtol=h.const(0))
        t.solve(b, rtol=h.const(0))
    else:
        s.solve(b, matvec_max=2 * n + 2, rtol=1.0e-9, shift=h.const(0) if how == 'zero' else None, check=False)
        t.solve(b)
    if h.finite(s.bestSolution):
        compare(h, t, s)
        h.claim('the same products', c.count == d.count)


def t_default_minres(h, n, how):
    kw, c, A, B, b, P, M = symm.symsystem(h, n, 'basis')
    d = Counted(h, A, symmetric=True)
    full = dict(shift=h.const(0), show=True, check=True, itnlim=5 * n, rtol=1.0e-12, etol=1.0e-6, window=5)
    part = {}
    if how == 'havoc':
        W = [answer(h, i, n) for i in range(5 * n + 4)]
        c, d = (Havoc(h, n, n, W, symmetric=True) for _ in range(2))
        part = dict(rtol=h.const(0), check=False)
        if h.decide(h.real('which', lo=0, hi=1) > 0):
            part['etol'] = h.const(0)
        full.update(part)
    elif how == 'etol':
        part = dict(window=1)
        full.update(part)
    s, t = symm.minres(h, c), symm.minres(h, d)
    quietly(lambda: s.solve(b, store_resids=False, store_iterates=False, **full))
    quietly(lambda: t.solve(b, **part))
    if h.finite(s.bestSolution):
        compare(h, t, s)
        h.claim('the same products', c.count == d.count)


def t_default_lls(h, meth, m, n, how):
    np = h.np
    limit = 3 * n if meth in ('LSQR', 'CRAIG') else min(m, n)
    full = dict(itnlim=limit, damp=0.0, M=None, N=None, atol=1.0e-9, btol=1.0e-9, conlim=1.0e8, show=False, etol=1.0e-6,
                store_resids=False, window=5)
    if meth in ('LSQR', 'CRAIG'):
        full['wantvar'] = False
    if how == 'havoc':
        W = [answer(h, i, m) for i in range(limit + 2)]
        V = [answer(h, i + 1, n) for i in range(limit + 3)]
        c, d = (Havoc(h, m, n, W, V) for _ in range(2))
        p, q = c.op, d.op
        b = h.zeros(m)
        b[0] = h.real('beta', sign='+')
        part = dict((k, h.const(0)) for k in lls.OFF)
        full.update(part)
    else:
        pr = lls.Problem(h, m, n, 'basis')
        p = q = pr.op
        b = pr.b
        if meth == 'LSMR':
            # its estimate of the condition starts from 1e100
            for i in range(m):
                for j in range(n):
                    h.assume(pr.B[i, j] <= 1000)
                    h.assume(pr.B[i, j] >= -1000)
        part = {}
        if how == 'none':
            part = dict(damp=None, atol=None, btol=None, conlim=None)
            full.update(atol=1.0e-6, btol=1.0e-6)
    s, t = lls.solver(h, meth, p), lls.solver(h, meth, q)
    with lls.Patched(h, meth):
        s.solve(b, **full)
        t.solve(b, **part)
    if h.finite(s.x):
        compare(h, t, s)


@prop('R03', MODS, total_s=90)
def r03(tier):
    b = 'n<=2; operators with any products (for limits) and matrices (for tolerances)'
    for meth in ('CG', 'CGS', 'BiCGSTAB', 'TFQMR'):
        for n in (1, 2):
            for how in ('havoc', 'matrix'):
                for guess in (False, True):
                    yield Case('%s n=%d %s guess=%s' % (meth, n, how, guess), t_default_square, bound=b,
                               params=Params(**krylov.policy(meth)), meth=meth, n=n, how=how, guess=guess)
    for n in (1, 2):
        for how in ('havoc', 'matrix', 'zero'):
            yield Case('SYMMLQ n=%d %s' % (n, how), t_default_symmlq, bound=b, params=Params(**K), n=n, how=how)
    for n in (1, 2):
        for how in ('havoc', 'matrix', 'etol'):
            yield Case('MINRES n=%d %s' % (n, how), t_default_minres, bound=b, params=Params(**K), n=n, how=how)
    for meth in lls.ALL:
        for m, n in ((2, 1), (2, 2), (2, 3)):
            for how in ('havoc', 'matrix') + (('none',) if meth == 'LSMR' else ()):
                if how == 'havoc' and (n > 2 and meth in ('LSQR', 'CRAIG') or n == 2):
                    continue
                yield Case('%s %dx%d %s' % (meth, m, n, how), t_default_lls, bound=b, params=Params(**K),
                           lemmas=lls.LEMMAS if meth == 'LSMR' else (), meth=meth, m=m, n=n, how=how)
