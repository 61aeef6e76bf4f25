"""A longer solve begins as a shorter one."""
from ._util import *
from . import krylov, symm, lls, reuse
from .krylov import Counted, K
from .reuse import public, same

MODS = reuse.MODS


def histories(s):
    return dict((k, v) for k, v in public(s).items() if isinstance(v, list))


def beginning(h, short, full, skip=()):
    "every list the short solve leaves is the beginning of that of the long solve"
    u, f = histories(short), histories(full)
    h.claim('the same histories', sorted(u) == sorted(f))
    for k in sorted(u):
        if k in skip or k not in f:
            continue
        h.claim('%s: no longer' % k, len(u[k]) <= len(f[k]))
        for i, (x, y) in enumerate(zip(u[k], f[k])):
            same(h, '%s[%d]' % (k, i), x, y)


def iterate(h, name, short, full):
    "the solution of the short solve is the iterate the long one stored"
    its = getattr(full, name)
    k = len(getattr(short, name)) - 1
    if k < len(its):
        h.eq('solution after %d steps' % k, short.x, its[k])


def t_square(h, meth, n, kind, few, many, guess, pre, check=True):
    c, A, b = krylov.system(h, meth, n, kind)
    kw = {}
    b = krylov.guess_of(h, kw, guess, n, 'd', A, b)
    P, M = krylov.precon(h, n, pre)
    if meth == 'CG':
        kw.update(store_resids=True, store_iterates=True)
    out = []
    for mm in few, many:
        s = krylov.solver(h, meth)(c.op, abstol=h.const(0), reltol=h.const(0), precon=P)
        s.solve(b, matvec_max=mm + guess, **kw)
        if not h.finite(s.bestSolution):
            return
        out.append(s)
    beginning(h, *out)
    if meth == 'CG':
        iterate(h, 'iterates', *out)
        h.eq('residual norm', out[0].residNorm, out[1].residHistory[len(out[0].residHistory) - 1])


def t_symmetric(h, meth, n, kind, few, many, shift):
    kw, c, A, B, b, P, M = symm.symsystem(h, n, kind, shift)
    out = []
    for st in few, many:
        if meth == 'MINRES':
            s = symm.minres(h, c, precon=P)
            s.solve(b, show=False, check=False, itnlim=st, rtol=h.const(0), etol=h.const(0), window=2, store_resids=True,
                    store_iterates=True, **kw)
        else:
            s = symm.symmlq(h, c, precon=P)
            s.solve(b, matvec_max=st + 1, rtol=h.const(0), store_iterates=True, **kw)
        if not h.finite(s.bestSolution):
            return
        out.append(s)
    beginning(h, *out)
    if meth == 'MINRES':
        iterate(h, 'iterates', *out)
        k = len(out[0].residHistory)
        if 0 < k <= len(out[1].residHistory):
            h.eq('residual norm', out[0].residNorm, out[1].residHistory[k - 1])


def t_lls(h, meth, m, n, kind, weights, few, many, damp):
    p = lls.Problem(h, m, n, kind, weights)
    out = []
    for st in few, many:
        s = lls.solver(h, meth, p.op)
        lls.solve(h, s, meth, p, st, h.const('1/2') if damp else None, store_resids=True, store_iterates=True, window=2)
        if not h.finite(s.x):
            return
        out.append(s)
    beginning(h, *out)
    if meth == 'CRAIG':
        iterate(h, 'iterates_p', *out)
    elif meth != 'CRAIGMR':
        iterate(h, 'iterates', *out)


@prop('R05', MODS, total_s=90)
def r05(tier):
    b = 'condensed systems up to size 3; multiples of fixed systems of order up to 8, up to 7 steps'
    for meth in ('CG', 'CGS', 'BiCGSTAB', 'TFQMR'):
        for n, kind, few, many, guess, pre in ((1, 'full', 1, 2, False, None), (1, 'full', 0, 2, True, 'diag'), (2, 'basis', 2, 4, False, None),
                                               (2, 'full', 1, 2, True, None), (6, 'deep', 5, 9, True, 'deep'), (5, 'deep', 3, 8, False, None),
                                               (8, 'deep', 8, 14, False, None)):
            if kind == 'basis' and meth == 'TFQMR':
                continue
            yield Case('%s n=%d %s products %d %d guess=%s precon=%s' % (meth, n, kind, few, many, guess, pre), t_square, bound=b,
                       params=Params(**krylov.policy(meth)), meth=meth, n=n, kind=kind, few=few, many=many, guess=guess, pre=pre)
    for meth in ('MINRES', 'SYMMLQ'):
        for n, kind, few, many, shift in ((1, 'basis', 1, 2, True), (2, 'basis', 1, 2, False), (2, 'diag', 1, 2, True), (3, 'basis', 2, 3, False),
                                          (5, 'deep', 2, 4, False), (6, 'deep', 3, 5, True), (6, 'deepP', 4, 6, False), (8, 'deep', 4, 7, False)):
            if meth == 'SYMMLQ' and kind == 'basis' and n == 3:
                continue
            yield Case('%s n=%d %s steps %d %d shift=%s' % (meth, n, kind, few, many, shift), t_symmetric, bound=b, params=Params(**K),
                       meth=meth, n=n, kind=kind, few=few, many=many, shift=shift)
    for meth in lls.ALL:
        for m, n, kind, w, few, many in ((2, 2, 'basis', '', 1, 2), (3, 2, 'basis', '', 1, 2), (2, 3, 'basis', '', 1, 2), (2, 2, 'basis', 'mn', 1, 2),
                                         (5, 4, 'deepb', '', 2, 4), (6, 5, 'deepb', 'MN', 3, 4), (5, 6, 'deepb', '', 3, 5)):
            for damp in (False, True):
                if damp and meth[:2] != 'LS':
                    continue
                yield Case('%s %dx%d %s %s steps %d %d damp=%s' % (meth, m, n, kind, w, few, many, damp), t_lls, bound=b, params=Params(**K),
                           lemmas=lls.LEMMAS if meth == 'LSMR' else (), meth=meth, m=m, n=n, kind=kind, weights=w, few=few, many=many, damp=damp)
