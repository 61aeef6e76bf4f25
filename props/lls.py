"""The least-squares methods: LSQR, LSMR, CRAIG, CRAIG-MR."""
from fractions import Fraction
from itertools import chain
from ._util import *
from .krylov import K, sq

CLS = {'LSQR': ('pykrylov.lls.lsqr', 'LSQRFramework'), 'LSMR': ('pykrylov.lls.lsmr', 'LSMRFramework'),
       'CRAIG': ('pykrylov.lls.craig', 'CRAIGFramework'), 'CRAIGMR': ('pykrylov.lls.craigmr', 'CRAIGMRFramework')}
MODS = ['pykrylov.linop'] + sorted(m for m, _ in CLS.values())
ALL = ('LSQR', 'LSMR', 'CRAIG', 'CRAIGMR')
OFF = ('atol', 'btol', 'conlim', 'etol')


class Problem(object):
    """minimise |b - A x| in the norm of M, with damp |x| in the norm of N^-1, in a form that
    loses no generality: orthogonal changes of basis bring A to lower bidiagonal form and b to
    a multiple of e1.  M and N are inverses of Gm Gm', Gn Gn'; A = Gm B Gn', b = beta Gm e1."""

    def __init__(self, h, m, n, kind, weights='', bits=None):
        np = h.np
        self.m, self.n = m, n
        self.unit = None
        self.B = None
        if kind.startswith('deep'):
            self.deep(h, kind, weights)
            return
        B = h.zeros((m, n))
        for j in range(n):
            for i in (j, j + 1):
                if i < m:
                    on = (bits is None or bits[i + j] == '1') and not (i and kind.startswith('pad'))
                    if on:
                        B[i, j] = h.real('B%d%d' % (i, j), sign='+')
        e = h.zeros(m)
        e[0] = h.real('beta', sign='+')
        if kind == 'rot':
            # any orthogonal changes of basis of two-dimensional spaces
            U = self.rotation(h, 'c', m)
            V = self.rotation(h, 'd', n)
            B = np.dot(U, np.dot(B, V.T))
            e = np.dot(U, e)
        elif kind == 'full':
            B = h.mat('A', m, n)
            e = h.vec('b', m)
        elif kind == 'padfull':
            # one equation, and others that are 0 = 0 (a single equation would do, but
            # the methods squeeze it to a number)
            B[:1] = h.mat('A', 1, n)
            e[0] = h.real('b0')
        self.M = self.N = self.Mi = self.Ni = None
        A, b = B, e
        if kind == 'basis':
            self.B = B
        if 'M' in weights or 'm' in weights:
            G, self.M, self.Mi = self.weight(h, 'Gm', m, 'M' in weights)
            A, b = np.dot(G, A), np.dot(G, b)
        if 'N' in weights or 'n' in weights:
            G, self.N, self.Ni = self.weight(h, 'Gn', n, 'N' in weights)
            A = np.dot(A, G.T)
        self.A, self.b = A, b
        self.op = wrap(h, A)
        self.kw = {}
        if self.M is not None:
            self.kw['M'] = wrap(h, self.M, 'symherm')
        if self.N is not None:
            self.kw['N'] = wrap(h, self.N, 'symherm')

    def deep(self, h, kind, weights):
        """many steps: everything fixed up to positive factors (deepone: one for A and b; deepb: only for b),
        the damping a multiple of that of A"""
        self.A, self.b = deep(h, self.n, 'full', m=self.m, one='one' in kind, only='b' if kind == 'deepb' else '')
        self.unit = h.const(1) if kind == 'deepb' else self.A[0, 0] / h.const(3)
        self.M = self.N = self.Mi = self.Ni = None
        P = [[deepentry('full', self.m, self.n, i, j) for j in range(self.n)] for i in range(self.m)]
        for c, size in (('M', self.m), ('N', self.n)):
            if c in weights.upper():
                G, F = self.fixed(size, c in weights)
                W, Wi = h.zeros((size, size)), h.zeros((size, size))
                for i in range(size):
                    for j in range(size):
                        W[i, j] = h.const(str(sum(G[i][k] * G[j][k] for k in range(size))))
                        Wi[i, j] = h.const(str(sum(F[k][i] * F[k][j] for k in range(size))))
                if kind != 'deepb':
                    w = h.real('scale' + c, sign='+')
                    h.assume(w >= h.const('1/1000'))
                    W, Wi = w * w * W, Wi / (w * w)
                    self.unit = self.unit * w
                setattr(self, c, W)
                setattr(self, c + 'i', Wi)
                if c == 'M':
                    P = [[sum(G[k][i] * P[k][j] for k in range(size)) for j in range(self.n)] for i in range(size)]
                else:
                    P = [[sum(P[i][k] * G[k][j] for k in range(size)) for j in range(size)] for i in range(self.m)]
        e = [Fraction((3 * i) % 5 - 1) for i in range(self.m)]
        if 'M' in weights.upper():
            G, F = self.fixed(self.m, 'M' in weights)
            e = [sum(G[k][i] * e[k] for k in range(self.m)) for i in range(self.m)]
        self.numbers = P, e
        # the size of N A'M A
        self.size = self.unit * self.unit * h.const(str(sum(v * v for r in P for v in r) / Fraction(2)))
        self.op = wrap(h, self.A)
        self.kw = {}
        if self.M is not None:
            self.kw['M'] = wrap(h, self.M, 'symherm')
        if self.N is not None:
            self.kw['N'] = wrap(h, self.N, 'symherm')

    @staticmethod
    def fixed(n, full):
        "the factor G of a fixed weight GG' (full: not diagonal), and its inverse"
        G, F = [[0] * n for _ in range(n)], [[0] * n for _ in range(n)]
        for i in range(n):                       # G unit lower bidiagonal times a diagonal; F its inverse
            d = Fraction((1, 2, 1, 1)[i % 4])
            G[i][i], F[i][i] = d, 1 / d
        if full:
            for i in range(1, n):
                G[i][i - 1] = G[i - 1][i - 1] * Fraction(1 if i % 2 else -1, 2)
            for i in range(n):
                for j in range(i):
                    F[i][j] = -sum(G[i][k] * F[k][j] for k in range(j, i)) / G[i][i]
        return G, F

    @staticmethod
    def rotation(h, name, n):
        if n != 2:
            return h.identity(n)
        c = h.real(name, lo=-1, hi=1)
        s = h.sqrt(1 - c * c)
        return h.array([[c, -s], [s, c]])

    @staticmethod
    def weight(h, name, n, full):
        np = h.np
        if full and n == 2:
            G = h.mat(name, n, n, 'd', 'lower')
            for i in range(n):
                h.assume(G[i, i] > 0)
            d = G[0, 0] * G[1, 1]
            F = h.array([[G[1, 1] / d, -G[1, 0] / d], [0, G[0, 0] / d]])
        else:
            g = [h.real('%s%d' % (name, i), sign='+') for i in range(n)]
            G, F = h.zeros((n, n)), h.zeros((n, n))
            for i in range(n):
                G[i, i] = g[i]
                F[i, i] = 1 / g[i]
        return G, np.dot(F, F.T), np.dot(G, G.T)


# symOrtho computes a rotation in one of four ways; they all give the same result.  Where that is
# proved for all arguments, calls of symOrtho with a nonzero second argument are replaced by that
# result, so that one path stands for what otherwise would be many.

def rotation(h, f):
    def g(a, b):
        if b == 0:
            return f(a, b)
        r = h.sqrt(a * a + b * b)
        return a / r, b / r, r
    return g


def l_symortho(h):
    f = h.mod('pykrylov.lls.lsmr').symOrtho
    a, b = h.real('a'), h.real('b', nz=True)
    c, s, r = f(a, b)
    q = h.sqrt(a * a + b * b)
    h.eq('r', r, q)
    h.eq('c', c * q, a)
    h.eq('s', s * q, b)


LEMMAS = (('symOrtho', l_symortho),)


class Patched(object):
    def __init__(self, h, name):
        self.mod = h.mod('pykrylov.lls.lsmr') if name == 'LSMR' and h.proved('symOrtho') else None
        self.h = h

    def __enter__(self):
        if self.mod is not None:
            self.old = self.mod.symOrtho
            self.mod.symOrtho = rotation(self.h, self.old)

    def __exit__(self, *a):
        if self.mod is not None:
            self.mod.symOrtho = self.old


def mul(h, M, v):
    return v if M is None else h.np.dot(M, v)


def solver(h, name, op):
    mod, cls = CLS[name]
    return getattr(h.mod(mod), cls)(op)


def run(h, name, p, steps, damp=None, off=True, **kw):
    s = solver(h, name, p.op)
    solve(h, s, name, p, steps, damp, off, **kw)
    return s


def solve(h, s, name, p, steps, damp=None, off=True, **kw):
    kw = dict(p.kw, **kw)
    if damp is not None:
        kw['damp'] = damp
    if off:
        for k in OFF:
            kw.setdefault(k, h.const(0))
    b = kw.pop('b', p.b)
    with Patched(h, name):
        return s.solve(b, itnlim=steps, **kw)


def gradient(h, p, x, damp=None):
    "A'M(b - Ax) - damp^2 N^-1 x, and the residual b - Ax"
    np = h.np
    r = p.b - np.dot(p.A, x)
    g = np.dot(p.A.T, mul(h, p.M, r))
    if damp is not None:
        g = g - damp * damp * mul(h, p.Ni, x)
    return g, r


def normal(h, p, v, damp=None):
    "(A'MA + damp^2 N^-1) v"
    np = h.np
    w = np.dot(p.A.T, mul(h, p.M, np.dot(p.A, v)))
    if damp is not None:
        w = w + damp * damp * mul(h, p.Ni, v)
    return w


def damping(h, damp, p=None):
    if damp and p is not None and p.unit is not None:
        return p.unit * h.const('3/2')
    return h.real('damp', sign='+') if damp else None


def krylov(h, p, k):
    "Krylov vectors of N A'M A and N A'M b"
    np = h.np
    v = mul(h, p.N, np.dot(p.A.T, mul(h, p.M, p.b)))
    if p.unit is not None:
        v = v / p.size
    out = []
    for _ in range(k):
        out.append(v)
        v = mul(h, p.N, normal(h, p, v))
        if p.unit is not None:
            v = v / p.size
    return out


def tridiagonal(h, p, k):
    """Diagonal and squares of the off-diagonal entries of the symmetric tridiagonal matrix to which k steps
    of Lanczos reduce N A'M A; fewer if an off-diagonal entry is zero, None where the problem does not
    show them."""
    if p.unit is not None:
        P, e = p.numbers
        m, n = p.m, p.n
        v = [sum(P[i][j] * e[i] for i in range(m)) for j in range(n)]
        w, old, nn, d, o = None, None, sum(x * x for x in v), [], []
        for i in range(k):
            if nn == 0:
                break
            Pv = [sum(P[r][c] * v[c] for c in range(n)) for r in range(m)]
            S = [sum(P[r][c] * Pv[r] for r in range(m)) for c in range(n)]
            a = sum(x * y for x, y in zip(S, v)) / nn
            d.append(a)
            new = [x - a * y - (o[-1] * z if w is not None else 0) for x, y, z in zip(S, v, w or v)]
            w, v = v, new
            last, nn = nn, sum(x * x for x in v)
            o.append(nn / last)
        u2 = p.unit * p.unit
        return [u2 * h.const(str(x)) for x in d], [u2 * u2 * h.const(str(x)) for x in o]
    if p.B is None or k > min(p.m, p.n):
        return None
    B, d, o = p.B, [], []
    for j in range(k):
        d.append(h.np.dot(B[:, j], B[:, j]))
        if j + 1 < p.n:
            t = h.np.dot(B[:, j], B[:, j + 1])
            o.append(t * t)
    return d, o


def t_estimates(h, meth, m, n, kind, weights, steps, damp):
    "the norm and the condition number of the tridiagonal matrix stand for those of the problem"
    p = Problem(h, m, n, kind, weights)
    d = damping(h, damp, p)
    s = run(h, meth, p, steps, d)
    if not h.finite(s.x) or s.itn == 0:
        return
    T = tridiagonal(h, p, s.itn)
    if T is None or len(T[0]) < s.itn:
        return
    k = s.itn
    diag, off = T
    d2 = h.const(0) if d is None else d * d
    trace = sum(diag[1:], diag[0])
    if meth == 'LSQR':
        # the last step does not count if nothing is left of the residual
        if p.unit is None and p.m == k:
            return
        trace = trace + k * d2
    h.eq('norm', s.Anorm * s.Anorm, trace)
    h.claim('not negative', h.and_(s.Anorm >= 0, s.Acond >= 0) if meth == 'LSQR' else s.Anorm >= 0)
    # the rows of the triangular factor R of T + damp^2 I, squared
    r, t = [diag[0] + d2], []
    for i in range(1, k):
        t.append(off[i - 1] / r[i - 1])
        r.append(diag[i] + d2 - t[i - 1])
    if meth == 'LSQR':
        if p.Ni is not None:
            return
        # the squares of the entries of the inverse of R
        total = None
        for j in range(k):
            x = 1 / r[j]
            col = x
            for i in range(j - 1, -1, -1):
                x = x * t[i] / r[i]
                col = col + x
            total = col if total is None else total + col
        h.eq('condition', s.Acond * s.Acond, trace * total)
        return
    if k == 1:
        if s.Anorm * s.Anorm + d2 <= h.const('1e40'):
            h.eq('condition', s.Acond, h.const(1))
        return
    if kind != 'deepb':
        return
    # the pivots of R R'
    pivots = []
    for i in range(k):
        v = r[i] + (t[i] if i < k - 1 else 0)
        if i:
            v = v - t[i - 1] * r[i] / pivots[i - 1]
        pivots.append(v)
    c2 = s.Acond * s.Acond
    for i in range(k):
        for j in range(k):
            if i != j:
                h.leq('condition at least %d/%d' % (i, j), pivots[i], c2 * pivots[j])
    h.claim('condition', h.or_(*[c2 * pivots[j] == pivots[i] for i in range(k) for j in range(k) if i != j]))


def problems(tier, norms=False, lsmr=False):
    """Sizes, forms, weights and numbers of steps.  Left out of the quick tier: what the solvers do
    not decide there."""
    out = [(2, 1, 'pad', ''), (2, 1, 'basis', ''), (2, 2, 'pad', ''), (2, 1, 'full', ''), (2, 2, 'padfull', ''),
           (2, 2, 'basis', ''), (2, 2, 'rot', ''), (3, 2, 'basis', ''), (2, 3, 'basis', ''), (3, 3, 'basis', ''),
           (2, 1, 'pad', 'mN'), (2, 1, 'basis', 'MN'), (2, 2, 'pad', 'mN'),
           (2, 2, 'basis', 'M'), (2, 2, 'basis', 'N'), (2, 2, 'basis', 'mn'), (3, 2, 'basis', 'mn'), (3, 2, 'basis', 'N'), (3, 2, 'basis', 'm'),
           (3, 3, 'basis', 'mn'), (3, 3, 'basis', 'n'), (3, 3, 'basis', 'm')]
    for m, n, kind, w in out:
        last = min(n, 2 if kind == 'rot' else 3)
        if kind == 'basis' and n < 3 and w != 'mn':
            last = n + 1                       # one more step than needed is allowed
        for k in range(1, last + 1):
            for damp in (False, True):
                if kind == 'rot' and (norms and (damp or lsmr) or damp and lsmr and k > 1):
                    continue
                if norms and damp and (m, n, k) == (3, 3, 3) and tier == 'quick':
                    continue
                yield m, n, kind, w, k, damp


def deepproblems(tier):
    out = [(5, 5, '', 5), (7, 5, '', 5), (4, 6, '', 4), (5, 4, 'MN', 4), (4, 5, 'mN', 4), (5, 5, 'Mn', 4)]
    if tier != 'quick':
        out += [(8, 8, '', 8), (10, 6, '', 6), (6, 10, '', 6), (7, 7, 'MN', 7)]
    for m, n, w, k in out:
        for damp in (False, True):
            yield m, n, 'deep', w, k, damp


def estimates(meth):
    for m, n, kind, w, k in ((2, 1, 'basis', '', 1), (2, 2, 'basis', '', 1), (3, 2, 'basis', '', 1), (3, 2, 'basis', '', 2), (2, 2, 'basis', '', 2),
                             (2, 2, 'basis', 'MN', 1), (3, 2, 'basis', 'mn', 2), (4, 3, 'basis', '', 3), (5, 5, 'deep', '', 4), (7, 5, 'deep', '', 4),
                             (4, 6, 'deep', '', 3), (5, 4, 'deep', 'MN', 3), (5, 5, 'deep', 'Mn', 4)):
        for damp in (False, True):
            if meth == 'LSMR' and kind == 'deep':
                kind = 'deepb'
            yield Case('%s estimates %dx%d %s %s steps=%d damp=%s' % (meth, m, n, kind, w, k, damp), t_estimates, params=Params(**K),
                       lemmas=LEMMAS if meth == 'LSMR' else (), meth=meth, m=m, n=n, kind=kind, weights=w, steps=k, damp=damp)


# ------------------------------------------------------------ S01 LSQR minimises the residual

def t_lsqr(h, m, n, kind, weights, steps, damp):
    np = h.np
    p = Problem(h, m, n, kind, weights)
    d = damping(h, damp, p)
    s = run(h, 'LSQR', p, steps, d, store_iterates=True)
    x = s.x
    if not h.finite(x):
        return
    g, r = gradient(h, p, x, d)
    for k, v in enumerate(krylov(h, p, s.itn)):
        h.eq('gradient orthogonal to Krylov vector %d' % k, np.dot(g, v), h.const(0))
    if s.itn >= n:
        h.eq('solved', g, h.zeros(n))
    h.claim('iterates', len(s.iterates) == s.itn + 1)
    h.eq('last iterate', s.iterates[-1], x)
    h.eq('first iterate', s.iterates[0], h.zeros(n))
    h.claim('limit', s.itn <= steps)


@prop('S01', MODS, total_s=75)
def s01(tier):
    for m, n, kind, w, k, damp in chain(problems(tier), deepproblems(tier)):
        yield Case('LSQR %dx%d %s %s steps=%d damp=%s' % (m, n, kind, w, k, damp), t_lsqr, params=Params(**K),
                       m=m, n=n, kind=kind, weights=w, steps=k, damp=damp)


# ----------------------------------------------------- S02 LSQR reports true norms and variances

def t_lsqrnorms(h, m, n, kind, weights, steps, damp):
    np = h.np
    p = Problem(h, m, n, kind, weights)
    d = damping(h, damp, p)
    s = run(h, 'LSQR', p, steps, d, store_resids=True)
    x = s.x
    if not h.finite(x):
        return
    g, r = gradient(h, p, x, d)
    r1 = sq(h, r, p.M)
    xn = sq(h, x, p.Ni)
    r2 = r1 if d is None else r1 + d * d * xn
    h.eq('r2norm', s.r2norm * s.r2norm, r2)
    h.eq('r1norm', s.r1norm * s.r1norm, r1)
    h.eq('xnorm', s.xnorm * s.xnorm, xn)
    h.eq('Arnorm', s.Arnorm * s.Arnorm, sq(h, g, p.N))
    h.claim('no norm is negative', h.and_(s.r2norm >= 0, s.xnorm >= 0, s.Arnorm >= 0))
    h.eq('residNorm', s.residNorm, s.r2norm)
    h.claim('histories', len(s.resids) == s.itn + 1 and len(s.normal_eqns_resids) == s.itn + 1)
    h.eq('last residual', s.resids[-1], s.r2norm)
    h.eq('last gradient', s.normal_eqns_resids[-1], s.Arnorm)
    h.eq('first residual', s.resids[0] * s.resids[0], sq(h, p.b, p.M))
    for k in range(s.itn):
        h.leq('residuals do not grow %d' % k, s.resids[k + 1], s.resids[k])


def t_var(h, m, n, kind, damp):
    np = h.np
    p = Problem(h, m, n, kind)
    d = damping(h, damp, p)
    s = run(h, 'LSQR', p, n, d, wantvar=True)
    if s.itn < n or not h.finite(s.var):
        return
    C = np.dot(p.A.T, p.A)
    if d is not None:
        C = C + d * d * h.identity(n)
    v = s.var
    h.claim('one variance for each unknown', tuple(v.shape) == (n,))
    if n == 1:
        h.eq('variance', v[0] * C[0, 0], h.const(1))
    else:
        det = C[0, 0] * C[1, 1] - C[0, 1] * C[1, 0]
        h.eq('variance 0', v[0] * det, C[1, 1])
        h.eq('variance 1', v[1] * det, C[0, 0])


@prop('S02', MODS, total_s=75)
def s02(tier):
    for m, n, kind, w, k, damp in chain(problems(tier, True), deepproblems(tier)):
        yield Case('LSQR %dx%d %s %s steps=%d damp=%s' % (m, n, kind, w, k, damp), t_lsqrnorms,
                       params=Params(**K), m=m, n=n, kind=kind, weights=w, steps=k, damp=damp)
    for c in estimates('LSQR'):
        yield c
    for m, n, kind in ((2, 1, 'pad'), (2, 1, 'full'), (2, 2, 'basis'), (3, 2, 'basis')):
        for damp in (False, True):
            yield Case('LSQR variances %dx%d %s damp=%s' % (m, n, kind, damp), t_var,
                       params=Params(**K), m=m, n=n, kind=kind, damp=damp)


# ------------------------------------------------------------- S03 LSMR minimises the gradient

def t_lsmr(h, m, n, kind, weights, steps, damp):
    np = h.np
    p = Problem(h, m, n, kind, weights)
    d = damping(h, damp, p)
    s = run(h, 'LSMR', p, steps, d, store_iterates=True)
    x = s.x
    if not h.finite(x):
        return
    g, r = gradient(h, p, x, d)
    Ng = mul(h, p.N, g)
    if p.unit is not None:
        Ng = Ng / (p.size * p.size)
    for k, v in enumerate(krylov(h, p, s.itn)):
        h.eq('gradient orthogonal to operator times Krylov vector %d' % k, np.dot(Ng, normal(h, p, v, d)), h.const(0))
    if s.itn >= n:
        h.eq('solved', g, h.zeros(n))
    h.claim('iterates', len(s.iterates) == s.itn + 1)
    h.eq('last iterate', s.iterates[-1], x)
    h.eq('first iterate', s.iterates[0], h.zeros(n))
    h.claim('limit', s.itn <= steps)


@prop('S03', MODS, total_s=90)
def s03(tier):
    for m, n, kind, w, k, damp in chain(problems(tier, False, True), deepproblems(tier)):
        yield Case('LSMR %dx%d %s %s steps=%d damp=%s' % (m, n, kind, w, k, damp), t_lsmr, params=Params(**K), lemmas=LEMMAS,
                       m=m, n=n, kind=kind, weights=w, steps=k, damp=damp)


# ---------------------------------------------------------------- S04 LSMR reports true norms

def t_lsmrnorms(h, m, n, kind, weights, steps, damp):
    np = h.np
    p = Problem(h, m, n, kind, weights)
    d = damping(h, damp, p)
    s = solver(h, 'LSMR', p.op)
    out = solve(h, s, 'LSMR', p, steps, d, store_resids=True)
    x = s.x
    if not h.finite(x):
        return
    g, r = gradient(h, p, x, d)
    r2 = sq(h, r, p.M)
    if d is not None:
        r2 = r2 + d * d * sq(h, x, p.Ni)
    h.eq('residual norm', s.residNorm * s.residNorm, r2)
    h.eq('Arnorm', s.Arnorm * s.Arnorm, sq(h, g, p.N))
    h.eq('xnorm', s.xnorm * s.xnorm, sq(h, x))
    h.claim('no norm is negative', h.and_(s.residNorm >= 0, s.xnorm >= 0, s.Arnorm >= 0))
    h.claim('eight results', len(out) == 8)
    h.eq('results', h.array([out[3], out[4], out[5], out[6], out[7]]),
         h.array([s.residNorm, s.Arnorm, s.Anorm, s.Acond, s.xnorm]))
    h.eq('solution', out[0], x)
    h.claim('status', h.and_(out[1] == s.istop, out[2] == s.itn))
    h.claim('histories', len(s.resids) == s.itn + 1 and len(s.normal_eqns_resids) == s.itn + 1)
    h.eq('last residual', s.resids[-1], s.residNorm)
    h.eq('last gradient', s.normal_eqns_resids[-1], s.Arnorm)
    h.eq('first residual', s.resids[0] * s.resids[0], sq(h, p.b, p.M))
    for k in range(s.itn):
        h.leq('gradients do not grow %d' % k, s.normal_eqns_resids[k + 1], s.normal_eqns_resids[k])


@prop('S04', MODS, total_s=90)
def s04(tier):
    for m, n, kind, w, k, damp in chain(problems(tier, True, True), deepproblems(tier)):
        yield Case('LSMR %dx%d %s %s steps=%d damp=%s' % (m, n, kind, w, k, damp), t_lsmrnorms,
                       params=Params(**K), lemmas=LEMMAS, m=m, n=n, kind=kind, weights=w, steps=k, damp=damp)
    for c in estimates('LSMR'):
        yield c


# ------------------------------------------- S06, S07 CRAIG and CRAIG-MR solve the SQD system

def dual(h, p, r):
    "(M^-1 + A N A') r"
    np = h.np
    return mul(h, p.Mi, r) + np.dot(p.A, mul(h, p.N, np.dot(p.A.T, r)))


def dualkrylov(h, p, k):
    "Krylov vectors of M A N A' and M b"
    np = h.np
    v = mul(h, p.M, p.b)
    if p.unit is not None:
        v = v / p.size
    out = []
    for _ in range(k):
        out.append(v)
        v = mul(h, p.M, np.dot(p.A, mul(h, p.N, np.dot(p.A.T, v))))
        if p.unit is not None:
            v = v / p.size
    return out


def t_craig(h, m, n, kind, weights, steps, damp=False):
    np = h.np
    p = Problem(h, m, n, kind, weights)
    d = damping(h, damp, p)
    s = run(h, 'CRAIG', p, steps, d, store_iterates=True)
    x, r = s.x, s.r
    if not h.finite(x):
        return
    h.claim('iterates', len(s.iterates_p) == s.itn + 1 and len(s.iterates_d) == s.itn + 1)
    h.claim('limit', s.itn <= steps)
    if d is not None:
        # regularised by damp^2 N^-1
        h.eq('primal from dual', d * d * x, mul(h, p.N, np.dot(p.A.T, r)))
        return
    h.eq('primal from dual', x, mul(h, p.N, np.dot(p.A.T, r)))
    q = p.b - dual(h, p, r)
    for k, v in enumerate(dualkrylov(h, p, s.itn + 1)):
        h.eq('residual orthogonal to Krylov vector %d' % k, np.dot(q, v), h.const(0))
    if s.itn >= m - 1:
        h.eq('solved', q, h.zeros(m))
        h.eq('residual', mul(h, p.Mi, r), p.b - np.dot(p.A, x))
        g, _ = gradient(h, p, x, h.const(1))
        h.eq('regularised least squares', g, h.zeros(n))
    h.eq('last iterates', s.iterates_p[-1], x)
    h.eq('last dual iterates', s.iterates_d[-1], r)
    for k in range(s.itn):
        h.eq('primal from dual %d' % k, s.iterates_p[k], mul(h, p.N, np.dot(p.A.T, s.iterates_d[k])))


def t_craigmr(h, m, n, kind, weights, steps, damp=False):
    np = h.np
    p = Problem(h, m, n, kind, weights)
    d = damping(h, damp, p)
    s = run(h, 'CRAIGMR', p, steps, d, store_iterates=True)
    r = s.x
    if not h.finite(r):
        return
    h.claim('limit', s.itn <= steps)
    h.claim('one component for each equation', tuple(r.shape) == (m,))
    q = p.b - dual(h, p, r)
    Mq = mul(h, p.M, q)
    for k, v in enumerate(dualkrylov(h, p, s.itn)):
        h.eq('residual orthogonal to operator times Krylov vector %d' % k, np.dot(Mq, dual(h, p, v)), h.const(0))
    if s.itn >= m:
        h.eq('solved', q, h.zeros(m))
    h.claim('iterates', len(s.iterates) == s.itn + 1)
    h.eq('last iterate', s.iterates[-1], r)
    h.eq('first iterate', s.iterates[0], h.zeros(m))


def dualproblems(tier):
    out = [(2, 1, 'pad', ''), (2, 2, 'pad', ''), (2, 1, 'basis', ''), (2, 2, 'padfull', ''), (2, 1, 'full', ''),
           (2, 2, 'basis', ''), (2, 2, 'rot', ''), (2, 3, 'basis', ''), (3, 2, 'basis', ''), (3, 3, 'basis', ''),
           (2, 1, 'pad', 'mN'), (2, 1, 'basis', 'MN'), (2, 2, 'pad', 'mN'), (2, 2, 'basis', 'M'),
           (2, 2, 'basis', 'N'), (2, 2, 'basis', 'mn'), (3, 2, 'basis', 'mn'), (3, 2, 'basis', 'N'), (3, 2, 'basis', 'm'),
           (3, 3, 'basis', 'mn'), (3, 3, 'basis', 'n'), (3, 3, 'basis', 'm')]
    for m, n, kind, w in out:
        for k in range(1, min(m, 2 if w else 1 if kind in ('rot', 'full', 'pad', 'padfull') else 3) + 1):
            yield m, n, kind, w, k
    for m, n, w, k in ((5, 5, '', 5), (4, 6, '', 4), (6, 4, '', 5), (5, 4, 'MN', 4), (4, 5, 'mN', 4), (5, 5, 'Mn', 4)):
        yield m, n, 'deepb', w, k


@prop('S06', MODS, total_s=75)
def s06(tier):
    for m, n, kind, w, k in dualproblems(tier):
        yield Case('CRAIG %dx%d %s %s steps=%d' % (m, n, kind, w, k), t_craig,
                   params=Params(**K), m=m, n=n, kind=kind, weights=w, steps=k)
    # the damping parameter is ignored: a known finding
    yield Case('CRAIG damp', t_craig, params=Params(**K), m=1, n=1, kind='basis', weights='', steps=1, damp=True)


@prop('S07', MODS, total_s=75)
def s07(tier):
    for m, n, kind, w, k in dualproblems(tier):
        yield Case('CRAIGMR %dx%d %s %s steps=%d' % (m, n, kind, w, k), t_craigmr,
                   params=Params(**K), m=m, n=n, kind=kind, weights=w, steps=k)


# -------------------------------------- S09 CRAIG and CRAIG-MR: norms, estimates and stopping

WHY = {0: 'solution is zero', 1: 'residual small', 2: 'residual small', 3: 'ill-conditioned operator', 4: 'residual small',
       5: 'residual small', 6: 'ill-conditioned operator', 7: 'max iterations', 8: 'direct error small'}


def t_duals(h, meth, m, n, kind, weights, top, window=1, btol=False):
    np = h.np
    p = Problem(h, m, n, kind, weights)
    lim = h.int('lim', 1 if meth == 'CRAIG' else 0, top)
    kw = {'window': window} if window else {}
    if btol:
        kw['btol'] = h.real('btol', lo=0, hi=1)
    window = window or 5
    etol = h.real('etol', lo=0, hi=1)
    s = run(h, meth, p, lim, etol=etol, store_iterates=True, store_resids=True, **kw)
    if not h.finite(s.x):
        return
    its = s.iterates_d if meth == 'CRAIG' else s.iterates

    def energy(r):
        if meth == 'CRAIG':
            return np.dot(r, dual(h, p, r))
        w = dual(h, p, r)
        return np.dot(w, mul(h, p.M, w))
    h.claim('limit respected', s.itn <= lim)
    h.claim('stops for a reason', h.or_(*[s.istop == k for k in range(9)]))
    if btol:
        if h.decide(s.istop == 1):
            q = p.b - dual(h, p, s.r)
            h.leq('residual small enough', sq(h, q, p.M), kw['btol'] * kw['btol'] * sq(h, p.b, p.M))
        return
    h.claim('histories', len(s.norms) == len(its) and len(its) == s.itn + 1 and len(s.normal_eqns_resids) == s.itn)
    es = [energy(r) for r in its]
    for k, e in enumerate(es):
        h.eq('squared energy norm %d' % k, s.norms[k], e)
    if meth == 'CRAIG':
        h.claim('one objective for each iterate', len(s.resids) == s.itn + 1)
        for k, (x, r) in enumerate(zip(s.iterates_p, its)):
            h.eq('objective %d' % k, s.resids[k], sq(h, r, p.Mi) + sq(h, x, p.Ni))
        h.eq('r2norm', s.r2norm * s.r2norm, es[-1])
        h.claim('r2norm not negative', s.r2norm >= 0)
        wins = s.dir_errors_d_window
    else:
        for k in range(1, s.itn + 1):
            q = p.b - dual(h, p, its[k])
            w = s.normal_eqns_resids[k - 1]
            h.eq('residual %d' % k, w * w, sq(h, q, p.M))
            h.claim('residual %d not negative' % k, w >= 0)
        wins = s.dir_errors_window
    h.claim('one estimate for each step once the window is full', len(wins) == max(0, s.itn - window))
    for j, w in enumerate(wins):
        k = window + 1 + j
        h.eq('direct error %d' % k, w * w * es[k], energy(its[k] - its[k - window]))
        h.claim('estimate %d not negative' % k, w >= 0)
        if k < s.itn:
            h.claim('not accurate enough before %d' % k, w >= etol)
    why = s.istop
    if h.decide(why == 7):
        h.claim('limit reached', s.itn == lim)
    elif h.decide(why == 8):
        h.claim('estimated', s.itn > window)
        h.leq('accurate enough', wins[-1], etol)
    elif h.decide(why == 4):
        h.claim('only CRAIG has this test', meth == 'CRAIG')
    elif h.decide(why == 0):
        h.eq('zero right-hand side', p.b, h.zeros(m))
        h.eq('zero is the solution', s.x, h.zeros(len(s.x)))
    else:
        h.claim('known reason', False)
    for k in WHY:
        if h.decide(why == k):
            h.claim('status', s.status == WHY[k])
            break
    h.claim('optimal unless stopped', h.or_(h.and_(why == 7, h.not_(s.optimal)), h.and_(why != 7, s.optimal)))


@prop('S09', MODS, total_s=75)
def s09(tier):
    for meth in ('CRAIG', 'CRAIGMR'):
        for m, n, kind, w, top in ((2, 1, 'pad', '', 2), (2, 1, 'basis', '', 2), (2, 2, 'padfull', '', 1), (2, 2, 'basis', '', 2),
                                   (2, 3, 'basis', '', 2), (2, 2, 'basis', 'mn', 1), (2, 1, 'pad', 'mN', 1)):
            yield Case('%s %dx%d %s %s steps<=%d' % (meth, m, n, kind, w, top), t_duals, params=Params(**K),
                       meth=meth, m=m, n=n, kind=kind, weights=w, top=top)
        for m, n, w, top, win in ((5, 5, '', 4, 1), (5, 5, '', 4, 2), (4, 6, 'mn', 3, 1), (6, 4, 'MN', 3, 2), (8, 7, '', 7, None)):
            yield Case('%s deep %dx%d %s steps<=%d window=%s' % (meth, m, n, w, top, win), t_duals, params=Params(**K),
                       meth=meth, m=m, n=n, kind='deepb', weights=w, top=top, window=win)
    # a known finding
    yield Case('CRAIG btol', t_duals, params=Params(**K), meth='CRAIG', m=3, n=2, kind='basis', weights='', top=1, btol=True)


# --------------------------------------------------- S05 LSQR and LSMR: limits and stopping

def t_stop(h, meth, m, n, kind, weights, top, damp, tol):
    np = h.np
    p = Problem(h, m, n, kind, weights)
    d = damping(h, damp, p)
    kw = dict((k, h.const(0)) for k in OFF)
    for k in tol:
        if k == 'conlim':
            kw[k] = h.real(k, lo=1)
        else:
            kw[k] = h.real(k, lo=0, hi=1)
    lim = h.int('lim', 1 if meth == 'LSQR' else 0, top)
    s = run(h, meth, p, lim, d, **kw)
    x = s.x
    if not h.finite(x):
        return
    g, r = gradient(h, p, x, d)
    h.claim('limit respected', s.itn <= lim)
    why = s.istop
    h.claim('stops for a reason', h.or_(*[why == k for k in range(9)]))
    rn, gn = s.residNorm, s.Arnorm
    xn = s.xnorm
    bn = h.sqrt(sq(h, p.b, p.M))
    if h.decide(why == 7):
        h.claim('limit reached', s.itn == lim)
        h.leq('residual not small enough before', kw['btol'] * bn + kw['atol'] * s.Anorm * xn, rn)
        h.leq('gradient not small enough before', kw['atol'] * s.Anorm * rn, gn)
        if 'conlim' in tol:
            h.leq('condition number not limited before', s.Acond, kw['conlim'])
    elif h.decide(why == 1):
        h.leq('residual small enough', rn, kw['btol'] * bn + kw['atol'] * s.Anorm * xn)
    elif h.decide(why == 2):
        h.leq('gradient small enough', gn, kw['atol'] * s.Anorm * rn)
    elif h.decide(why == 3):
        if 'conlim' in tol:
            h.leq('condition number limited', kw['conlim'], s.Acond)
    elif h.decide(why == 0):
        h.eq('zero is the solution', g, h.zeros(n))
        h.eq('zero', x, h.zeros(n))
    elif h.decide(why == 4):
        h.eq('no residual', r, h.zeros(m))
    elif h.decide(why == 5):
        h.eq('no gradient', g, h.zeros(n))
    else:
        h.claim('known reason', False)
    good = h.or_(*[why == k for k in (0, 1, 2, 4, 5, 8)])
    if meth == 'LSQR':
        for k in WHY:
            if h.decide(why == k):
                h.claim('status', s.status == WHY[k])
                break
    h.claim('optimal unless stopped', h.or_(h.and_(good, s.optimal), h.and_(h.not_(good), h.not_(s.optimal))))


def t_window(h, meth, m, n, kind, steps, damp, window=1):
    "the test on the truncated direct error"
    np = h.np
    p = Problem(h, m, n, kind)
    d = damping(h, damp, p)
    etol = h.real('etol', lo=0, hi=1)
    kw = {'window': window} if window else {}
    window = window or 5
    s = run(h, meth, p, steps, d, etol=etol, store_iterates=True, **kw)
    x = s.x
    if not h.finite(x):
        return
    if s.itn <= window:
        h.claim('no estimate', len(s.dir_errors_window) == 0)
        h.claim('no verdict', s.istop != 8)
        return
    its = s.iterates

    def energy(v):
        w = normal(h, p, v, d)
        return np.dot(v, w) if meth == 'LSQR' else np.dot(w, mul(h, p.N, w))
    for k in range(window + 1, s.itn + 1):
        e = energy(its[k] - its[k - window])
        t = energy(its[k])
        w = s.dir_errors_window[k - window - 1]
        h.eq('direct error %d' % k, w * w * t, e)
        h.claim('estimate %d not negative' % k, w >= 0)
        if k < s.itn:
            h.claim('not accurate enough before %d' % k, w >= etol)
    h.claim('one estimate for each step once the window is full', len(s.dir_errors_window) == s.itn - window)
    if h.decide(s.istop == 8):
        h.leq('accurate enough', w, etol)
        h.claim('optimal', s.optimal)


@prop('S05', MODS, total_s=90)
def s05(tier):
    for meth in ('LSQR', 'LSMR'):
        for m, n, kind, w, top in ((2, 1, 'pad', '', 2), (2, 1, 'basis', '', 2), (2, 2, 'padfull', '', 2), (2, 2, 'basis', '', 2),
                                   (2, 1, 'pad', 'mN', 1), (2, 1, 'basis', 'mn', 2), (2, 2, 'basis', 'mn', 1)):
            for damp in (False, True):
                for tol in (('atol',), ('btol',), ('conlim',), ('atol', 'btol', 'conlim')):
                    if len(tol) > 1 and (kind, w) != ('pad', ''):
                        continue
                    yield Case('%s stop %dx%d %s %s damp=%s %s' % (meth, m, n, kind, w, damp, '+'.join(tol)), t_stop,
                               params=Params(**K), lemmas=LEMMAS, meth=meth, m=m, n=n, kind=kind, weights=w, top=top,
                               damp=damp, tol=tol)
        for m, n, k in ((2, 2, 2), (3, 2, 2), (2, 3, 2), (3, 3, 2), (3, 3, 3)):
            for damp in (False, True):
                if k > 2 and (damp or meth == 'LSMR') and tier == 'quick':
                    continue
                yield Case('%s window %dx%d steps=%d damp=%s' % (meth, m, n, k, damp), t_window, params=Params(**K),
                           lemmas=LEMMAS, meth=meth, m=m, n=n, kind='basis', steps=k, damp=damp)
        for m, n, k, win in ((5, 5, 4, 2), (6, 5, 5, 3), (7, 8, 7, None)):
            for damp in (False, True):
                yield Case('%s deep window %dx%d steps=%d window=%s damp=%s' % (meth, m, n, k, win, damp), t_window, params=Params(**K),
                           lemmas=LEMMAS, meth=meth, m=m, n=n, kind='deepone', steps=k, damp=damp, window=win)
        for m, n, w, top in ((5, 5, '', 4), (4, 6, '', 4), (5, 4, 'MN', 4)):
            for damp in (False, True):
                for tol in (('atol',), ('btol',), ('conlim',)):
                    if meth == 'LSMR' and (tol == ('conlim',) or w) and tier == 'quick':
                        continue
                    yield Case('%s deep stop %dx%d %s damp=%s %s' % (meth, m, n, w, damp, '+'.join(tol)), t_stop,
                               params=Params(**K), lemmas=LEMMAS, meth=meth, m=m, n=n, kind='deepone', weights=w, top=top,
                               damp=damp, tol=tol)


# ------------------------------------- S08 special right-hand sides, purity, early termination

def state(s):
    out = [s.x, s.itn, s.istop]
    if s.acronym == 'CRAIG':
        out += [s.r, s.r1norm, s.r2norm]
    elif s.acronym != 'CRAIG-MR':
        out += [s.residNorm, s.Arnorm, s.Anorm, s.Acond, s.xnorm]
    return out


def copied(v):
    return v.copy() if hasattr(v, 'copy') else v


def t_pure(h, meth, m, n, kind, weights, steps, damp):
    "the same problem again: inputs untouched, the same result, the first result kept"
    np = h.np
    p = Problem(h, m, n, kind, weights)
    d = damping(h, damp, p)
    b = p.b + h.zeros(m)
    b0, A0 = b.copy(), p.A.copy()
    s = solver(h, meth, p.op)
    solve(h, s, meth, p, steps, d, b=b, store_iterates=True, store_resids=True)
    one = [copied(v) for v in state(s)]
    if not h.finite(s.x):
        return
    x = s.x
    h.eq('right-hand side untouched', b, b0)
    h.eq('matrix untouched', p.A, A0)
    solve(h, s, meth, p, steps, d, b=b, store_iterates=True, store_resids=True)
    for k, (u, v) in enumerate(zip(one, state(s))):
        h.eq('same again %d' % k, v, u)
    h.eq('first solution kept', x, one[0])
    h.claim('histories start afresh', len(s.iterates if meth != 'CRAIG' else s.iterates_p) == s.itn + 1)
    s.x[:] = 5.0
    h.eq('not shared', b, b0)


def t_other(h, meth, m, n, kind, steps):
    "another system in between"
    p = Problem(h, m, n, kind)
    c = h.zeros(m)
    for i in range(m):
        c[i] = h.const(i + 1)
    s, t = solver(h, meth, p.op), solver(h, meth, p.op)
    solve(h, s, meth, p, steps, b=c)
    solve(h, s, meth, p, steps)
    solve(h, t, meth, p, steps)
    if not h.finite(t.x):
        return
    for k, (u, v) in enumerate(zip(state(s), state(t))):
        h.eq('as if new %d' % k, u, v)


def t_zero(h, meth, m, n, weights, damp):
    p = Problem(h, m, n, 'full' if not weights else 'basis', weights)
    d = damping(h, damp, p)
    s = solver(h, meth, p.op)
    solve(h, s, meth, p, 2, d, b=h.zeros(m))
    h.eq('zero', s.x, h.zeros(m if meth == 'CRAIGMR' else n))
    if meth in ('LSQR', 'LSMR'):
        h.claim('optimal', h.and_(s.optimal, s.istop == 0, s.itn == 0))
        h.eq('no residual', s.residNorm, h.const(0))
        h.eq('no gradient', s.Arnorm, h.const(0))
    if meth == 'CRAIG':
        h.eq('zero dual', s.r, h.zeros(m))


def t_normal0(h, meth, m, n, damp):
    "A'b = 0 although b is not zero"
    np = h.np
    a = h.vec('a', m)
    h.assume(np.dot(a, a) > 0)
    b = h.zeros(m)
    b[0], b[1] = -a[1], a[0]
    A = h.zeros((m, n))
    for j in range(n):
        t = h.real('t%d' % j)
        A[:, j] = t * a
    s = solver(h, meth, wrap(h, A))
    kw = dict((k, h.const(0)) for k in OFF)
    if damp:
        kw['damp'] = h.real('damp', sign='+')
    s.solve(b, itnlim=2, **kw)
    h.eq('zero', s.x, h.zeros(n))
    h.claim('optimal', h.and_(s.optimal, s.istop == 0))
    h.eq('residual norm', s.residNorm * s.residNorm, np.dot(b, b))
    h.eq('no gradient', s.Arnorm, h.const(0))


def t_int(h, meth, m, n, damp):
    p = Problem(h, m, n, 'basis')
    d = damping(h, damp, p)
    b = h.zeros(m, 'i')
    b[0] = h.int('b', 1, 5)
    if m > 1:
        b[1] = h.int('c', -1, 1)
    s, t = solver(h, meth, p.op), solver(h, meth, p.op)
    solve(h, s, meth, p, n, d, b=b)
    solve(h, t, meth, p, n, d, b=b.astype('float64'))
    if not h.finite(t.x):
        return
    for k, (u, v) in enumerate(zip(state(s), state(t))):
        h.eq('as for floats %d' % k, u, v)


def t_early(h, meth, m, n, bits, damp):
    "the bidiagonalisation ends early: the iterate solves the problem and further steps keep it"
    np = h.np
    p = Problem(h, m, n, 'basis', bits=bits)
    d = damping(h, damp, p)
    s = run(h, meth, p, 3, d)
    x = s.x
    if not h.finite(x):
        return
    if meth in ('LSQR', 'LSMR'):
        g, r = gradient(h, p, x, d)
        h.eq('solved', g, h.zeros(n))
    elif meth == 'CRAIG':
        h.eq('primal from dual', x, mul(h, p.N, np.dot(p.A.T, s.r)))
        h.eq('solved', p.b - dual(h, p, s.r), h.zeros(m))
    else:
        h.eq('solved', p.b - dual(h, p, x), h.zeros(m))


def special(tier):
    def case(name, fn, meth, **kw):
        return Case('%s %s %s' % (meth, name, ' '.join('%s' % (v,) for v in kw.values())), fn, params=Params(**K),
                    lemmas=LEMMAS, meth=meth, **kw)
    for meth in ALL:
        ls = meth in ('LSQR', 'LSMR')
        damps = (False, True) if ls else (False,)
        for damp in damps:
            for m, n, kind, w, k in ((1, 1, 'full', '', 1), (2, 2, 'padfull', '', 1), (2, 1, 'basis', '', 1), (2, 2, 'basis', '', 2), (2, 1, 'full', '', 1),
                                     (2, 2, 'basis', 'mn', 1), (3, 2, 'basis', '', 2)):
                yield case('pure', t_pure, meth, m=m, n=n, kind=kind, weights=w, steps=k, damp=damp)
            for m, n, w, k in ((5, 5, '', 4), (4, 6, 'mn', 3), (6, 4, 'MN', 3)):
                yield case('pure', t_pure, meth, m=m, n=n, kind='deepb', weights=w, steps=k, damp=damp)
            for m, n, w in ((1, 1, ''), (2, 1, ''), (1, 2, ''), (2, 2, ''), (2, 3, ''), (2, 2, 'mn')):
                yield case('zero', t_zero, meth, m=m, n=n, weights=w, damp=damp)
            for m, n in ((1, 1), (2, 1), (1, 2), (2, 2)):
                yield case('integers', t_int, meth, m=m, n=n, damp=damp)
            for m, n, bits in ((1, 1, '1'), (2, 1, '10'), (2, 2, '100'), (2, 2, '101'), (2, 2, '110'), (3, 2, '1110'), (3, 2, '1100'),
                               (2, 3, '1110')):
                yield case('early', t_early, meth, m=m, n=n, bits=bits, damp=damp)
            if ls:
                for n in (1, 2):
                    yield case('orthogonal', t_normal0, meth, m=2, n=n, damp=damp)
        for m, n, kind, k in ((1, 1, 'full', 1), (2, 1, 'basis', 1), (2, 2, 'basis', 2), (1, 2, 'basis', 1),
                              (5, 5, 'deepb', 3)):
            yield case('other', t_other, meth, m=m, n=n, kind=kind, steps=k)


def rows(case):
    return case.kw['m']


@prop('S08', MODS, total_s=90)
def s08(tier):
    for c in special(tier):
        if rows(c) > 1:
            yield c


# ------------------------------------------------------------------- S10 single equations

@prop('S10', MODS, total_s=75)
def s10(tier):
    for c in special(tier):
        if rows(c) == 1:
            yield c
    for meth, fns in (('LSQR', (t_lsqr, t_lsqrnorms)), ('LSMR', (t_lsmr, t_lsmrnorms)), ('CRAIG', (t_craig,)),
                      ('CRAIGMR', (t_craigmr,))):
        for n, kind, w, k in ((1, 'basis', '', 1), (1, 'full', '', 1), (2, 'basis', '', 1), (2, 'full', '', 1), (3, 'basis', '', 1),
                              (1, 'basis', 'MN', 1), (2, 'basis', 'mN', 1), (2, 'basis', 'MN', 1), (2, 'basis', '', 2)):
            if k > 1 and meth[:2] != 'LS':
                continue
            for damp in (False, True) if meth[:2] == 'LS' else (False,):
                for fn in fns:
                    yield Case('%s %s 1x%d %s %s steps=%d damp=%s' % (meth, fn.__name__[2:], n, kind, w, k, damp), fn,
                               params=Params(**K), lemmas=LEMMAS if meth == 'LSMR' else (), m=1, n=n, kind=kind, weights=w,
                               steps=k, damp=damp)
