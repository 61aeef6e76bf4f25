"""Limited-memory quasi-Newton operators."""
from fractions import Fraction
from ._util import *

MODS = ['pykrylov.linop.lbfgs']


def mod(h):
    return h.mod('pykrylov.linop.lbfgs')


def fixedpairs(h, n, k, curvature='+', tag=''):
    """many pairs: fixed directions, of lengths that are any positive numbers; curvature '?': each may be turned around
    or shrunk to nothing"""
    np = h.np
    out = []
    a = h.real(tag + 'slen', lo=Fraction(1, 8), hi=8)
    c = h.real(tag + 'ylen', lo=Fraction(1, 8), hi=8)
    for i in range(k):
        d = [(3 * i + 2 * j * j) % 5 - 2 for j in range(n)]
        d[i % n] += 4
        e = [x + ((i + j) % 3 - 1) for j, x in enumerate(d)]
        if sum(x * y for x, y in zip(d, e)) <= 0:
            e = d
        f = 1 if curvature == '+' else h.real('%sturn%d' % (tag, i), lo=-1, hi=1)
        s, y = h.zeros(n), h.zeros(n)
        for j in range(n):
            s[j] = a * h.const(d[j])
            y[j] = c * h.const(e[j]) * f
        ok = True
        if curvature != '+':
            h.assume(h.or_(h.le(h.const('1/1000'), f), f <= 0))
            ok = h.decide(f > 0)
        out.append((s, y, ok))
    return out


def pairs(h, n, k, curvature='+', tag=''):
    """k symbolic (s, y) pairs.  curvature: '+' s'y >= 1/1000; '?' each pair may be of
    clearly positive or of nonpositive curvature."""
    if n > 3:
        return fixedpairs(h, n, k, curvature, tag)
    np = h.np
    out = []
    for i in range(k):
        s, y = h.vec('%ss%d_' % (tag, i), n), h.vec('%sy%d_' % (tag, i), n)
        sy = np.dot(s, y)
        good = h.le(h.const('1/1000'), sy)
        if curvature == '+':
            h.assume(good)
            ok = True
        else:
            h.assume(h.or_(good, sy <= 0))
            ok = h.decide(sy > 0)
        out.append((s, y, ok))
    return out


def bfgs_inverse(h, n, kept, scaling, v):
    "the BFGS recursion on the inverse, applied to v"
    np = h.np
    g = 1.0
    if scaling and kept:
        s, y = kept[-1]
        g = np.dot(s, y) / np.dot(y, y)

    def H(k, v):
        if k == 0:
            return g * v
        s, y = kept[k - 1]
        rho = 1.0 / np.dot(s, y)
        w = H(k - 1, v - rho * np.dot(s, v) * y)
        return w - rho * np.dot(y, w) * s + rho * np.dot(s, v) * s
    return H(len(kept), v)


def feed(h, op, ps):
    kept = []
    for s, y, ok in ps:
        op.store(s, y)
        if ok:
            kept.append((s, y))
    return kept


def t_inverse(h, n, npairs, stored, scaling):
    np = h.np
    L = mod(h)
    op = L.InverseLBFGSOperator(n, npairs, scaling=scaling)
    kept = feed(h, op, pairs(h, n, stored))[-npairs:]
    v = h.vec('v', n)
    v0 = v.copy()
    r = op * v
    h.eq('v untouched', v, v0)
    h.eq('BFGS formula', r, bfgs_inverse(h, n, kept, scaling, v0))
    if kept:
        h.eq('secant equation H y = s', op * kept[-1][1], kept[-1][0])
    h.eq('same again', op * v, r)
    h.claim('declared symmetric', op.symmetric)
    h.eq('transpose', op.T * v, r)


def t_inverse_sym(h, n, npairs, stored, scaling):
    np = h.np
    op = mod(h).InverseLBFGSOperator(n, npairs, scaling=scaling)
    feed(h, op, pairs(h, n, stored))
    v, w = h.vec('v', n), h.vec('w', n)
    h.eq('symmetric', np.dot(w, op * v), np.dot(v, op * w))


def t_inverse_pd(h, npairs, scaling):
    "positive definiteness: v'Hv > 0 for v /= 0"
    np = h.np
    n = 2
    op = mod(h).InverseLBFGSOperator(n, npairs, scaling=scaling)
    feed(h, op, pairs(h, n, 1))
    v = h.vec('v', n)
    v[0] = h.real('vnz', nz=True)
    h.claim("v'Hv > 0", np.dot(v, op * v) > 0)


def cases(tier, fn, name, bound, **k):
    sizes = [(2, 2, 0), (2, 2, 1), (2, 2, 2), (2, 1, 2), (1, 2, 3), (4, 3, 2), (4, 3, 5), (5, 5, 7), (4, 2, 3)]
    if tier == 'thorough':
        sizes += [(3, 2, 2), (2, 3, 2), (2, 2, 3), (1, 3, 5), (3, 1, 2)]
    for n, np_, st in sizes:
        for sc in (False, True):
            yield Case('%s n=%d npairs=%d stored=%d scaling=%s' % (name, n, np_, st, sc), fn, bound=bound,
                       params=Params(div0='known'),
                       n=n, npairs=np_, stored=st, scaling=sc, **k)


@prop('Q01', MODS)
def q01(tier):
    b = 'n<=3, up to 3 pairs kept of up to 5 stored, all entries symbolic'
    for c in cases(tier, t_inverse, 'formula', b):
        yield c
    for c in cases(tier, t_inverse_sym, 'symmetric', b):
        yield c
    for sc in (False, True):
        yield Case('definite scaling=%s' % sc, t_inverse_pd, bound='n=2, one pair', npairs=1, scaling=sc)


# ------------------------------------------------------------------ Q02 forward operators

def t_forward(h, kind, n, npairs, stored, scaling):
    np = h.np
    L = mod(h)
    ps = pairs(h, n, stored)
    inv = L.InverseLBFGSOperator(n, npairs, scaling=scaling)
    fwd = getattr(L, kind)(n, npairs, scaling=scaling)
    feed(h, inv, ps)
    kept = feed(h, fwd, ps)[-npairs:]
    v = h.vec('v', n)
    v0 = v.copy()
    if kept:
        s, y = kept[-1]
        h.eq('secant equation B s = y', fwd * s, y)
    h.eq('B H v = v', fwd * (inv * v), v)
    h.eq('v untouched', v, v0)
    h.claim('declared symmetric', fwd.symmetric)


def t_forward_sym(h, kind, n, npairs, stored, scaling):
    np = h.np
    fwd = getattr(mod(h), kind)(n, npairs, scaling=scaling)
    feed(h, fwd, pairs(h, n, stored))
    v, w = h.vec('v', n), h.vec('w', n)
    h.eq('symmetric', np.dot(w, fwd * v), np.dot(v, fwd * w))


@prop('Q02', MODS)
def q02(tier):
    b = 'n<=3, up to 3 pairs kept of up to 5 stored, all entries symbolic'
    for kind in ('LBFGSOperator', 'CompactLBFGSOperator'):
        for c in cases(tier, t_forward, kind, b, kind=kind):
            yield c
        for c in cases(tier, t_forward_sym, kind + ' symmetric', b, kind=kind):
            yield c


# ------------------------------------------------------------------------- Q03 storage

KINDS = ('InverseLBFGSOperator', 'LBFGSOperator', 'CompactLBFGSOperator')


def t_reject(h, kind, n, npairs, stored, scaling):
    "only pairs of positive curvature count, and only the newest npairs of them"
    np = h.np
    L = mod(h)
    ps = pairs(h, n, stored, '?')
    op = getattr(L, kind)(n, npairs, scaling=scaling)
    kept = feed(h, op, ps)[-npairs:]
    ref = getattr(L, kind)(n, max(len(kept), 1), scaling=scaling)
    for s, y in kept:
        ref.store(s, y)
    v = h.vec('v', n)
    h.eq('as if only the kept pairs had been stored', op * v, ref * v)
    h.claim('capacity', op.npairs == npairs)


def t_copies(h, kind, n, npairs, stored, scaling):
    "what the caller does to its arrays later does not matter; restart forgets"
    np = h.np
    L = mod(h)
    ps = pairs(h, n, stored)
    op = getattr(L, kind)(n, npairs, scaling=scaling)
    feed(h, op, ps)
    v = h.vec('v', n)
    r = op * v
    for s, y, ok in ps:
        s[:] = 7.0
        y[0] = -3.0
    h.eq('stored pairs are copies', op * v, r)
    r[0] = 11.0
    h.claim('result is fresh', h.raises is not None)
    op.restart()
    h.eq('restart gives the identity', op * v, v)
    new = pairs(h, n, 1, tag='n')
    feed(h, op, new)
    ref = getattr(L, kind)(n, npairs, scaling=scaling)
    feed(h, ref, new)
    h.eq('as new after restart', op * v, ref * v)


@prop('Q03', MODS)
def q03(tier):
    sizes = [(2, 1, 2), (2, 2, 2), (1, 2, 4), (4, 3, 5), (4, 2, 4)]
    if tier == 'thorough':
        sizes += [(2, 2, 3), (1, 3, 5), (3, 1, 2)]
    for kind in KINDS:
        for n, k, st in sizes:
            for sc in (False, True):
                yield Case('%s n=%d npairs=%d stored=%d scaling=%s' % (kind, n, k, st, sc), t_reject,
                           params=Params(div0='known'),
                           bound='n<=3, up to 5 pairs of either sign of curvature stored', kind=kind, n=n, npairs=k,
                           stored=st, scaling=sc)
        for sc in (False, True):
            yield Case('%s copies, restart, many pairs scaling=%s' % (kind, sc), t_copies, params=Params(div0='known'),
                       bound='n=4, 4 pairs stored, 3 kept', kind=kind, n=4, npairs=3, stored=4, scaling=sc)
            yield Case('%s copies, restart scaling=%s' % (kind, sc), t_copies,
                       params=Params(div0='known'),
                       bound='n=2, 2 pairs', kind=kind, n=2, npairs=2, stored=2, scaling=sc)


# ---------------------------------------------------------------------- Q04 structured

def triple(h, n, i):
    if n <= 3:
        return h.vec('s%d_' % i, n), h.vec('y%d_' % i, n), h.vec('d%d_' % i, n)
    s, y, yd = h.zeros(n), h.zeros(n), h.zeros(n)         # many: all fixed, the last triple any multiple
    f = h.real('len%d' % i, lo=Fraction(1, 8), hi=8)
    for j in range(n):
        d = (3 * i + 2 * j * j) % 5 - 2 + (4 if j == i % n else 0)
        s[j] = f * h.const(d)
        y[j] = f * h.const(2 * d + ((i + j) % 3 - 1 if i % 2 else 0))
        yd[j] = f * h.const(d - ((i + 2 * j) % 3 - 1))
    return s, y, yd


def feed_structured(h, op, n, stored, scaling):
    """Pairs with s'y and s'Bs positive, where B is the operator before the pair (this is
    what the update needs); products and quotients of positive numbers being positive is
    said once more for the solver's benefit."""
    np = h.np
    last = None
    eps = h.const('1/1000')
    for i in range(stored):
        s, y, yd = triple(h, n, i)
        sy = np.dot(s, y)
        h.assume(h.le(eps, sy))
        sBs = np.dot(s, op * s)
        h.assume(h.le(eps, sBs))
        h.assume(sy * sBs > 0)
        h.assume(sy / sBs > 0)
        op.store(s, y, yd)
        last = s, yd
    return last


def t_structured(h, n, npairs, stored, scaling):
    np = h.np
    op = mod(h).StructuredLBFGSOperator(n, npairs, scaling=scaling)
    last = feed_structured(h, op, n, stored, scaling)
    h.eq('secant equation B s = yd', op * last[0], last[1])
    h.claim('declared symmetric', op.symmetric)


def t_structured_sym(h, n, npairs, stored, scaling):
    np = h.np
    op = mod(h).StructuredLBFGSOperator(n, npairs, scaling=scaling)
    feed_structured(h, op, n, stored, scaling)
    if n > 1 and min(npairs, stored) > 1:
        B = h.dense(op, 'd')
        h.eq('symmetric', B, B.T)
        return
    v, w = h.vec('v', n), h.vec('w', n)
    v0 = v.copy()
    Bv = op * v
    h.eq('v untouched', v, v0)
    h.eq('symmetric', np.dot(w, Bv), np.dot(v, op * w))


def t_structured_formula(h, n, npairs, stored, scaling):
    "B+ = B + (d a' + a d')/a's - (d's)/(a's)^2 a a' with a = y + sqrt(y's/s'Bs) Bs, d = yd - Bs"
    np = h.np
    op = mod(h).StructuredLBFGSOperator(n, npairs, scaling=scaling)
    trip = []
    eps = h.const('1/1000')
    for i in range(stored):
        s, y, yd = triple(h, n, i)
        sy = np.dot(s, y)
        h.assume(h.le(eps, sy))
        sBs = np.dot(s, op * s)
        h.assume(h.le(eps, sBs))
        h.assume(sy * sBs > 0)
        h.assume(sy / sBs > 0)
        op.store(s, y, yd)
        trip.append((s, y, yd))
    kept = trip[-npairs:]
    g = 1.0
    if scaling:
        g = np.dot(kept[-1][0], kept[-1][1]) / np.dot(kept[-1][1], kept[-1][1])
    terms = []

    def B(v):
        r = v / g
        for a, d, a_s, d_s in terms:
            av = np.dot(a, v) / a_s
            r = r + av * d + np.dot(d, v) / a_s * a - d_s / a_s * av * a
        return r
    for s, y, yd in kept:
        Bs = B(s)
        sBs = np.dot(s, Bs)
        h.assume(h.le(eps, sBs))
        h.assume(np.dot(s, y) / sBs > 0)
        a = y + h.sqrt(np.dot(s, y) / sBs) * Bs
        d = yd - Bs
        terms.append((a, d, np.dot(a, s), np.dot(d, s)))
    v = h.vec('v', n)
    h.eq('structured BFGS formula', op * v, B(v))


def t_structured_accept(h, n, npairs, before):
    "a triple counts exactly when s'y + sqrt(s'y s'Bs) reaches the threshold (here s'Bs > 0)"
    np = h.np
    op = mod(h).StructuredLBFGSOperator(n, npairs)
    if before:
        feed_structured(h, op, n, before, False)
        s, y, yd = triple(h, n, before)
        f = h.real('f', lo=-2, hi=2)
        y = f * y
    else:
        s, y, yd = triple(h, n, 9)
    w = h.vec('w', n)
    Bs, Bw = op * s, op * w
    sBs, ys = np.dot(s, Bs), np.dot(s, y)
    h.assume(h.le(h.const('1/1000000000000'), sBs))
    ok = False
    if h.decide(ys > 0):
        a = ys + h.sqrt(ys * sBs)
        ok = h.decide(a >= h.const('1.1e-8'))
        if not ok and h.decide(a >= h.const('0.9e-8')):
            return
    elif h.decide(ys == 0):
        return
    op.store(s, y, yd)
    if ok:
        h.eq('secant equation of an accepted pair', op * s, yd)
    else:
        h.eq('a rejected pair changes nothing', op * w, Bw)


@prop('Q04', MODS)
def q04(tier):
    sizes = [(2, 1, 1), (2, 2, 1), (1, 2, 2), (1, 1, 2), (2, 1, 2), (2, 2, 2), (4, 2, 2), (4, 3, 3), (4, 2, 3), (5, 3, 4)]
    if tier == 'thorough':
        sizes += [(3, 1, 1), (3, 2, 2), (1, 3, 3)]
    for n, k, st in sizes:
        for sc in (False, True):
            if sc and min(k, st) > 1:
                continue        # the scaling of a later pair changes what earlier pairs need
            yield Case('secant n=%d npairs=%d stored=%d scaling=%s' % (n, k, st, sc), t_structured,
                       bound='n<=3, up to 3 pairs; breakdowns (division by zero, root of a negative number) followed only where shown possible', params=Params(div0='known'), n=n, npairs=k, stored=st, scaling=sc)
            yield Case('symmetric n=%d npairs=%d stored=%d scaling=%s' % (n, k, st, sc), t_structured_sym,
                       bound='n<=3, up to 3 pairs; breakdowns (division by zero, root of a negative number) followed only where shown possible', params=Params(div0='known'), n=n, npairs=k, stored=st, scaling=sc)
            yield Case('formula n=%d npairs=%d stored=%d scaling=%s' % (n, k, st, sc), t_structured_formula,
                       bound='n<=3, up to 3 pairs', params=Params(div0='known'), n=n, npairs=k, stored=st, scaling=sc)
    for n, k, before in ((1, 1, 0), (2, 2, 0), (2, 1, 0), (4, 3, 2), (4, 2, 2)):
        yield Case('accept n=%d npairs=%d before=%d' % (n, k, before), t_structured_accept, params=Params(div0='known'),
                   bound='n<=4, one pair of any curvature after up to 2', n=n, npairs=k, before=before)


# ------------------------------------------------------------------- Q05 operands of any type

def build(h, kind, n, npairs, stored, scaling):
    L = mod(h)
    op = getattr(L, kind)(n, npairs, scaling=scaling)
    if kind == 'StructuredLBFGSOperator':
        feed_structured(h, op, n, stored, scaling)
    else:
        feed(h, op, pairs(h, n, stored))
    return op


def t_operand(h, kind, dtype, n, npairs, stored, scaling):
    "the product with a vector of another type is that of the matrix"
    np = h.np
    op = build(h, kind, n, npairs, stored, scaling)
    v = h.vec('v', n, dtype)
    v0 = v.copy()
    r = op * v
    h.eq('v untouched', v, v0)
    if dtype == 'D':
        h.eq('linear over the complex numbers', r, op * v.real + 1j * (op * v.imag))
        h.eq('transpose', op.T * v, op.T * v.real + 1j * (op.T * v.imag))
        h.eq('adjoint', op.H * v, op.H * v.real + 1j * (op.H * v.imag))
        h.claim('complex result', r.dtype.kind == 'c')
    else:
        w = v.astype('float64')
        h.eq('as the equal floating-point vector', r, op * w)
        h.eq('transpose', op.T * v, op.T * w)
        h.claim('floating-point result', r.dtype.kind == 'f')
    h.eq('same again', op * v, r)


@prop('Q05', MODS)
def q05(tier):
    sizes = [(2, 2, 0), (2, 1, 1), (2, 2, 1), (1, 1, 2), (1, 2, 2), (2, 2, 2), (4, 2, 3)]
    if tier == 'thorough':
        sizes += [(3, 2, 2), (1, 3, 4)]
    for kind in KINDS + ('StructuredLBFGSOperator',):
        for dt in 'Dif':
            for n, k, st in sizes:
                for sc in (False, True):
                    if sc and min(k, st) > 1 and kind == 'StructuredLBFGSOperator':
                        continue
                    yield Case('%s %s n=%d npairs=%d stored=%d scaling=%s' % (kind, dt, n, k, st, sc), t_operand,
                               bound='n<=3, up to 2 pairs', params=Params(div0='known'), kind=kind, dtype=dt, n=n,
                               npairs=k, stored=st, scaling=sc)
