"""Canonical polynomials over named atoms: the term language of the encoder.

A monomial is one Python integer: the sum of exponent * 2**(BITS*atom_index), so
monomials multiply by integer addition and exponents may be negative (Laurent).
A polynomial is a dict monomial -> rational coefficient.

Atoms are
  input   a free real variable of the encoding (an entry of a matrix, a tolerance ...)
  def     a name N for a polynomial P (N = P), introduced where P is divided by or grew big
  sqrt    s >= 0 with s*s = (a single term)
  max     m = max(a, b)
Definitions are kept, handed to the solver with every query that mentions the atom,
and unfolded by `zero_form` when an identity is to be decided.
"""
import math
import os
import random
from fractions import Fraction

BITS = 14
HALF = 1 << (BITS - 1)
FULL = (1 << BITS) - 1


class Budget(Exception):
    "An algebraic normalisation exceeded its size budget."


class Atom(object):
    __slots__ = ('idx', 'name', 'kind', 'sign', 'nz', 'defn', 'args', 'mono', 'vals',
                 'level', 'is_int', 'lo', 'hi', 'garbage', 'hv', 'zero', 'fixed')

    def __init__(self, idx, name, kind):
        self.idx = idx
        self.name = name
        self.kind = kind
        self.sign = None      # '+' : > 0   '0+' : >= 0   None
        self.nz = False       # known nonzero
        self.defn = None      # Poly for def; (coef, mono) for sqrt
        self.args = None
        self.mono = 1 << (BITS * idx)
        self.vals = None      # numeric value at each sample point
        self.level = 0
        self.is_int = False
        self.lo = self.hi = None
        self.garbage = False
        self.hv = None
        self.fixed = None     # bounds of a constant, False for anything else, once asked
        self.zero = None      # known to be identically zero (or not), once asked


class Space(object):
    "All atoms of one symbolic execution."

    def __init__(self, nsamples=24, seed=1, samples=None):
        self.atoms = []
        self.intern = {}
        self.OFF = 0          # HALF in every field
        self.SQMASK = 0       # the bits that must equal OFF's in fields of sqrt atoms
        self.SQOFF = 0
        self.nsamples = nsamples
        self.rng = random.Random(seed)
        self.points = samples if samples is not None else {}
        self.fp = {}
        self.sqrt_index = []
        self.merges = 0

    def new(self, name, kind):
        a = Atom(len(self.atoms), name, kind)
        self.atoms.append(a)
        self.OFF += HALF << (BITS * a.idx)
        if kind == 'sqrt':
            self.SQMASK += (FULL - 1) << (BITS * a.idx)
            self.SQOFF += HALF << (BITS * a.idx)
            self.sqrt_index.append(a)
        return a

    def exps(self, m):
        "Decode a monomial into [(atom, exponent)]."
        out = []
        if m == 0:
            return out
        v = m + self.OFF
        i = 0
        while v:
            e = (v & FULL) - HALF
            if e:
                out.append((self.atoms[i], e))
            v >>= BITS
            i += 1
        return out

    def exp_of(self, m, a):
        return ((m + self.OFF) >> (BITS * a.idx) & FULL) - HALF

    def reduce_mono(self, m):
        "Bring the sqrt atoms of m into exponents 0..1; returns (coef, mono)."
        c = 1
        again = True
        while again:
            again = False
            v = m + self.OFF
            if (v & self.SQMASK) == self.SQOFF:
                return c, m
            for a in reversed(self.sqrt_index):
                e = (v >> (BITS * a.idx) & FULL) - HALF
                if e > 1 or e < 0:
                    k, r = divmod(e, 2)
                    rc, rm = a.defn
                    c = c * (Fraction(rc) ** k)
                    m = m + (r - e) * a.mono + k * rm
                    again = True
                    break
        if isinstance(c, Fraction) and c.denominator == 1:
            c = c.numerator
        return c, m


SP = None          # the current Space


def set_space(sp):
    global SP
    SP = sp


MAXTERMS = 60000


def norm_coef(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class Poly(object):
    __slots__ = ('t', '_key', '_vals', 'nn')

    def __init__(self, t, nn=False):
        self.t = t
        self._key = None
        self._vals = None
        self.nn = nn          # known >= 0 by construction (sum of squares)

    @staticmethod
    def const(c):
        if isinstance(c, float):
            c = Fraction(c)
        c = norm_coef(c)
        return Poly({0: c}) if c else ZERO

    @staticmethod
    def atom(a):
        return Poly({a.mono: 1})

    def key(self):
        if self._key is None:
            self._key = frozenset(self.t.items())
        return self._key

    def is_zero(self):
        return not self.t

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and 0 in t)

    def constval(self):
        return self.t.get(0, 0)

    def __len__(self):
        return len(self.t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __add__(self, o):
        a, b = self.t, o.t
        if len(a) < len(b):
            a, b = b, a
        if not b:
            return self if self.t else o
        r = dict(a)
        for m, c in b.items():
            x = r.get(m)
            if x is None:
                r[m] = c
            else:
                x = x + c
                if x:
                    r[m] = x if type(x) is int else norm_coef(x)
                else:
                    del r[m]
        return Poly(r, (self.nn or const_nn(self)) and (o.nn or const_nn(o)))

    def __sub__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            x = r.get(m)
            if x is None:
                r[m] = -c
            else:
                x = x - c
                if x:
                    r[m] = x if type(x) is int else norm_coef(x)
                else:
                    del r[m]
        return Poly(r)

    def scale(self, k):
        if not k:
            return ZERO
        if k == 1:
            return self
        return Poly({m: norm_coef(c * k) for m, c in self.t.items()}, self.nn and k > 0)

    def mulmono(self, c0, m0):
        sp = SP
        mask, off, OFF = sp.SQMASK, sp.SQOFF, sp.OFF
        r = {}
        for m, c in self.t.items():
            m = m + m0
            c = c * c0
            if ((m + OFF) & mask) != off:
                k, m = sp.reduce_mono(m)
                c = c * k
            x = r.get(m)
            if x is None:
                r[m] = norm_coef(c)
            else:
                x = norm_coef(x + c)
                if x:
                    r[m] = x
                else:
                    del r[m]
        return Poly(r, self.nn and c0 > 0 and mono_sign(sp, m0) in ('+', '0+'))

    def __mul__(self, o):
        if len(self.t) < len(o.t):
            self, o = o, self
        b = o.t
        if not b:
            return ZERO
        if len(b) == 1:
            (m, c), = b.items()
            if m == 0:
                return self.scale(c)
            r = self.mulmono(c, m)
            if len(self.t) == 1 and self.t == b:
                r.nn = True
            return r
        r = self.mul_full(o)
        r.nn = (self.nn and o.nn) or self is o or self.t == b
        return r

    def mul_full(self, o, limit=None):
        a, b = self.t, o.t
        if len(a) < len(b):
            a, b = b, a
        sp = SP
        mask, off, OFF = sp.SQMASK, sp.SQOFF, sp.OFF
        limit = limit or MAXTERMS
        r = {}
        for m1, c1 in b.items():
            for m2, c2 in a.items():
                m = m1 + m2
                c = c1 * c2
                if ((m + OFF) & mask) != off:
                    k, m = sp.reduce_mono(m)
                    c = c * k
                x = r.get(m)
                if x is None:
                    r[m] = c
                else:
                    x = x + c
                    if x:
                        r[m] = x
                    else:
                        del r[m]
            if len(r) > limit:
                raise Budget('product exceeds %d terms' % limit)
        for m, c in r.items():
            if type(c) is not int:
                r[m] = norm_coef(c)
        return Poly(r)

    def pow(self, k):
        r = ONE
        for _ in range(k):
            r = r * self
        return r

    def atoms(self):
        "The set of atoms that occur."
        sp = SP
        seen = 0
        OFF = sp.OFF
        out = set()
        for m in self.t:
            for a, e in sp.exps(m):
                out.add(a)
        return out

    # -- numeric evaluation at the sample points -------------------------
    def vals(self):
        if self._vals is not None and len(self._vals) == SP.nsamples:
            return self._vals
        n = SP.nsamples
        tot = [0.0] * n
        mag = [0.0] * n
        many = len(self.t) > 1
        wide = False             # coefficients beyond floating point
        for m, c in self.t.items():
            fs = [(atom_vals(a), e) for a, e in SP.exps(m)]
            c = tofloat(c)
            if c == 0.0 or not -1e200 < c < 1e200:
                wide = True
            for i in range(n):
                v = c
                for vs, e in fs:
                    x = vs[i]
                    if e == 1:
                        v *= x
                    elif e == 2:
                        v *= x * x
                    elif x == 0.0 and e < 0:
                        v = NAN
                    else:
                        v = v * _fpow(x, e)
                tot[i] += v
                mag[i] += v if v >= 0.0 else -v
        if wide:
            tot = [hp_float(hp_eval(self, i)) for i in range(n)]
        else:
            for i in range(n):
                v = tot[i]
                if not mag[i] < 1e290 or mag[i] < 1e-290:
                    # out of the range of floating point (or zero)
                    tot[i] = hp_float(hp_eval(self, i))
                elif many and -1e-4 * mag[i] <= v <= 1e-4 * mag[i]:
                    # cancellation: again with 256-bit numbers
                    tot[i] = hp_float(hp_eval(self, i))
        self._vals = tot
        return tot

    def mags(self):
        "Sum of absolute values of the terms, at the sample points."
        n = SP.nsamples
        tot = [0.0] * n
        for m, c in self.t.items():
            fs = [(atom_vals(a), e) for a, e in SP.exps(m)]
            c = abs(tofloat(c))
            for i in range(n):
                v = c
                for vs, e in fs:
                    x = abs(vs[i])
                    if x == 0.0 and e < 0:
                        v = float('nan')
                    else:
                        v = v * _fpow(x, e)
                tot[i] += v
        return tot

    def __repr__(self):
        return show(self)


NAN = float('nan')
HPB = 256


def hp_norm(m, e):
    k = m.bit_length() - HPB
    if k > 0:
        return m >> k, e + k
    return m, e


def hp_of(f):
    f = Fraction(f)
    if f.denominator == 1:
        return hp_norm(f.numerator, 0)
    k = HPB + f.denominator.bit_length()
    return hp_norm((f.numerator << k) // f.denominator, -k)


def hp_mul(a, b):
    return hp_norm(a[0] * b[0], a[1] + b[1])


def hp_div(a, b):
    if b[0] == 0:
        return None
    k = HPB + b[0].bit_length()
    return hp_norm((a[0] << k) // b[0], a[1] - b[1] - k)


def hp_add(a, b):
    if a[0] == 0:
        return b
    if b[0] == 0:
        return a
    if a[1] < b[1]:
        a, b = b, a
    k = a[1] - b[1]
    if k > 4 * HPB + b[0].bit_length():
        return a
    return hp_norm((a[0] << k) + b[0], b[1])


def hp_sqrt(a):
    m, e = a
    if m < 0:
        return None
    if m == 0:
        return a
    k = 2 * HPB
    if (e - k) % 2:
        k += 1
    return hp_norm(math.isqrt(m << k), (e - k) // 2)


def hp_float(a):
    if a is None:
        return NAN
    m, e = a
    k = m.bit_length() - 60
    if k > 0:
        m, e = m >> k, e + k
    try:
        return math.ldexp(float(m), e)
    except OverflowError:
        return float('inf') if m > 0 else -float('inf')


def hp_eval(p, i):
    """p at sample point i to 256 bits; exact zero if all but noise cancels."""
    acc = (0, 0)
    top = None
    for m, c in p.t.items():
        v = hp_of(c)
        for a, e in SP.exps(m):
            x = hp_atom(a, i)
            if x is None:
                return None
            for _ in range(abs(e)):
                v = hp_mul(v, x) if e > 0 else hp_div(v, x)
                if v is None:
                    return None
        if v[0]:
            t = v[0].bit_length() + v[1]
            if top is None or t > top:
                top = t
        acc = hp_add(acc, v)
    if acc[0] and acc[0].bit_length() + acc[1] < top - 128:
        return (0, 0)
    return acc


def hp_atom(a, i):
    hv = a.hv
    if hv is None:
        hv = a.hv = {}
    if i in hv:
        return hv[i]
    if a.kind == 'def':
        v = hp_eval(a.defn, i)
    elif a.kind == 'sqrt':
        c, m = a.defn
        v = hp_eval(Poly({m: c}), i)
        v = None if v is None else hp_sqrt(v)
    elif a.kind == 'max':
        x, y = hp_eval(a.args[0], i), hp_eval(a.args[1], i)
        v = None if x is None or y is None else (x if hp_add(x, (-y[0], y[1]))[0] >= 0 else y)
    else:
        f = a.vals[i]
        v = None if f != f or f in (float('inf'), -float('inf')) else hp_of(f)
    hv[i] = v
    return v


def _fpow(x, e):
    try:
        return x ** e
    except OverflowError:
        return float('inf')
    except ZeroDivisionError:
        return float('nan')


def const_nn(p):
    return len(p.t) == 1 and p.t.get(0, -1) >= 0 or not p.t


ZERO = Poly({})
ONE = Poly({0: 1})


def tofloat(c):
    try:
        return float(c)
    except OverflowError:
        return float('inf') if c > 0 else -float('inf')


def root_vals(c, m):
    "the roots of c times the monomial m at the sample points"
    p = Poly({m: c})
    if c > 10 ** 150 and isinstance(c, int):
        r = tofloat(math.isqrt(c))
        q = Poly({m: 1})
    else:
        r = 1.0
        q = p
    return [r * math.sqrt(x) if 1e-290 < x < 1e290 and r < 1e150 or x == 0 else hp_float(hp_root(p, i)) if x >= 0 else float('nan')
            for i, x in enumerate(q.vals())]


def hp_root(p, i):
    v = hp_eval(p, i)
    return None if v is None else hp_sqrt(v)


def atom_vals(a):
    v = a.vals
    if v is not None and len(v) == SP.nsamples:
        return v
    if a.kind == 'def':
        v = list(a.defn.vals())
    elif a.kind == 'sqrt':
        c, m = a.defn
        v = root_vals(c, m)
    elif a.kind == 'max':
        p, q = a.args
        v = [max(x, y) for x, y in zip(p.vals(), q.vals())]
    else:
        raise AssertionError('no samples for ' + a.name)
    a.vals = v
    return v


def show(p, limit=8):
    if not p.t:
        return '0'
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: str(x[0]))[:limit]:
        s = str(c)
        for a, e in SP.exps(m):
            s += '*%s' % a.name + ('' if e == 1 else '^%d' % e)
        out.append(s)
    if len(p.t) > limit:
        out.append('...(%d terms)' % len(p.t))
    return ' + '.join(out)


# ---------------------------------------------------------------------------
# Content, naming, division and square roots

def split_content(p):
    """p = coef * mono * q with q primitive: no common monomial, integer
    coefficients of gcd 1.  coef > 0."""
    sp = SP
    ms = list(p.t)
    if len(ms) == 1:
        c = p.t[ms[0]]
        return c, ms[0], ONE
    common = None
    for m in ms:
        d = dict((a.idx, e) for a, e in sp.exps(m))
        if common is None:
            common = d
        else:
            new = {}
            for k in set(common) | set(d):
                e1, e2 = common.get(k, 0), d.get(k, 0)
                e = e1 if e1 < e2 else e2
                if e:
                    new[k] = e
            common = new
    mono = sum(e << (BITS * k) for k, e in common.items())
    g, l = 0, 1
    for c in p.t.values():
        c = Fraction(c)
        g = math.gcd(g, c.numerator)
        l = l * c.denominator // math.gcd(l, c.denominator)
    coef = norm_coef(Fraction(g, l))
    # dividing by sqrt atoms lifts them to exponent -1 .. fine: mono only holds
    # the minimum over terms, so quotients have exponents in 0..1 for sqrt atoms
    q = {}
    for m, c in p.t.items():
        q[m - mono] = norm_coef(Fraction(c) / coef)
    return coef, mono, Poly(q)


def lead_key(sp, m):
    return m + sp.OFF


def lead(p):
    off = SP.OFF
    return max(p.t, key=lambda m: m + off)


def poly_sqrt(p, cap=120):
    "q with q*q == p as polynomials, or None."
    n = len(p.t)
    if n > cap:
        return None
    sp = SP
    m = lead(p)
    c = p.t[m]
    rc = frac_sqrt(c)
    if rc is None:
        return None
    for a, e in sp.exps(m):
        if e % 2:
            return None
    m2 = m // 2
    q = Poly({m2: rc})
    rem = p - q * q
    steps = 0
    while rem.t:
        steps += 1
        if steps > 16:
            return None
        lm = lead(rem)
        mm = lm - m2
        cc = norm_coef(Fraction(rem.t[lm]) / (2 * rc))
        for a, e in sp.exps(mm):
            if e < 0:
                return None
            if a.kind == 'sqrt' and e > 1:
                return None
        t = Poly({mm: cc})
        if mm in q.t or lead_key(sp, mm) >= lead_key(sp, m2):
            return None
        rem = rem - (q * t).scale(2) - t * t
        q = q + t
    return q


def frac_sqrt(c):
    c = Fraction(c)
    if c < 0:
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return norm_coef(Fraction(a, b))
    return None


def name_poly(p):
    """A single term equal to p: (coef, mono), introducing a `def` atom if needed."""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return c, m
    sp = SP
    coef, mono, q = split_content(p)
    nn = p.nn and mono_sign(sp, mono) in ('+', '0+')
    a = sp.intern.get(('def', q.key()))
    if a is None:
        nq = -q
        b = sp.intern.get(('def', nq.key()))
        if b is not None:
            a, q, coef = b, nq, -coef
        else:
            if not nn and q.t[lead(q)] < 0:
                q, coef = nq, -coef
            a = fingerprint_lookup(q)
            if a is None:
                a = sp.new('N%d' % len(sp.atoms), 'def')
                a.defn = q
                q.nn = q.nn or nn
                a.level = 1 + max([x.level for x in q.atoms()] or [0])
                fingerprint_store(q, a)
                sg = quick_sign(q)
                if sg == '+':
                    a.sign, a.nz = '+', True
                elif sg == '0+':
                    a.sign = '0+'
                elif sg == '!':
                    a.nz = True
                a = (1, a.mono)
            sp.intern[('def', q.key())] = a
    return _term(coef * a[0], mono + a[1])


def _term(c, m):
    k, m = SP.reduce_mono(m)
    return norm_coef(c * k), m


def fingerprint(q):
    vs = q.vals()
    out = []
    for v in vs[:6]:
        if v != v or abs(v) == float('inf'):
            return None
        out.append(v)
    return out


def _fpkey(v):
    if v == 0:
        return '0'
    return '%.7e' % v


def fingerprint_store(q, a):
    f = fingerprint(q)
    if f is not None:
        SP.fp.setdefault(_fpkey(f[0]), []).append((f, a))


def fingerprint_lookup(q, limit=4000, work=40000):
    """(coef, mono) of an already known atom with the same value, if provable."""
    f = fingerprint(q)
    if f is None:
        return None
    for f2, a in SP.fp.get(_fpkey(f[0]), ()):
        if all(abs(x - y) <= 1e-7 * (abs(x) + abs(y)) for x, y in zip(f, f2)):
            try:
                if zero_form(q - Poly({a.mono: 1}), limit=limit, work=work).is_zero():
                    SP.merges += 1
                    return (1, a.mono)
            except Budget:
                pass
    return None


def looks_zero(p):
    "Numerically zero at all sample points (a hint only)."
    good = 0
    for v in p.vals():
        if v != v or abs(v) == float('inf'):
            continue
        if v != 0.0:
            return False
        good += 1
        if good >= 8:
            break
    return good >= 2


def drop_zero(p):
    "ZERO if p is identically zero (numerically suggested, then proven), else p."
    if p.t and looks_zero(p):
        try:
            if zero_form(p, 20000, 1500000).is_zero():
                return ZERO
        except Budget:
            pass
    return p


def zero_form(p, limit=20000, work=400000):
    """Unfold definitions until p is visibly zero or only inputs and square roots
    remain.  The result is zero only if p is (given that named denominators are
    nonzero); a nonzero result over inputs alone means p is not identically zero."""
    sp = SP
    spent = 0
    while True:
        if not p.t:
            return p
        for a in p.atoms():
            if atom_is_zero(a):
                p = Poly(dict((m, c) for m, c in p.t.items() if sp.exp_of(m, a) <= 0))
        if not p.t:
            return p
        # clear negative exponents of inputs and sqrt atoms and take out content
        c, mono, q = split_content(p)
        p = q
        ats = [a for a in p.atoms() if a.kind == 'def']
        if not ats:
            return p
        a = max(ats, key=lambda x: (x.level, x.idx))
        # p = sum_e  p_e * a^e ; after content removal e >= 0
        by = {}
        sh = a.mono
        for m, c in p.t.items():
            e = sp.exp_of(m, a)
            by.setdefault(e, {})[m - e * sh] = c
        mx = max(by)
        acc = ZERO
        d = a.defn
        for e in range(mx, -1, -1):     # Horner
            if acc.t:
                spent += len(acc.t) * len(d.t)
                if spent > work:
                    raise Budget('zero test work')
                acc = acc.mul_full(d, limit)
            if e in by:
                acc = acc + Poly(by[e])
        p = acc


def atom_is_zero(a):
    "a named quantity that is identically zero (numerically suggested, then proven)"
    if a.kind == 'input' or a.nz:
        return False
    z = a.zero
    if z is None:
        z = False
        vs = [v for v in atom_vals(a) if v == v and abs(v) != float('inf')]
        if len(vs) >= 2 and not any(vs[:8]):
            try:
                d = a.defn if a.kind == 'def' else Poly({a.defn[1]: a.defn[0]}) if a.kind == 'sqrt' else ONE
                z = zero_form(d, 20000, 1500000).is_zero()
            except Budget:
                pass
        a.zero = z
    return z


def is_identically_zero(p, **kw):
    if p.is_zero():
        return True
    if not looks_zero(p):
        return False
    try:
        return zero_form(p, **kw).is_zero()
    except Budget:
        return False


# ---------------------------------------------------------------------------
# Signs

def mono_sign(sp, m):
    "'+', '0+', '!' (nonzero, sign unknown) or None"
    pos = True
    strict = True
    known = True
    for a, e in sp.exps(m):
        if a.sign == '+':
            continue
        if e % 2 == 0:
            if not a.nz:
                strict = False
            continue
        if a.sign == '0+':
            if not (a.nz or e < 0):
                strict = False
            continue
        known = False
        if not (a.nz or e < 0):
            strict = False
    if known:
        return '+' if strict else '0+'
    return '!' if strict else None


def quick_sign(p):
    """'+','-','0+','0-','!','0' or None, from the signs of the terms alone."""
    if not p.t:
        return '0'
    sp = SP
    acc = None
    if p.nn:
        acc = quick_sign_terms(sp, p)
        return acc if acc == '+' else '0+'
    return quick_sign_terms(sp, p)


def quick_sign_terms(sp, p):
    acc = None
    if len(p.t) == 1:
        (m, c), = p.t.items()
        s = mono_sign(sp, m)
        if s in (None, '!'):
            return s
        if c < 0:
            s = s.replace('+', '-')
        return s
    for m, c in p.t.items():
        s = mono_sign(sp, m)
        if s in (None, '!'):
            return fixed_sign(p)
        d = '+' if c > 0 else '-'
        s = s.replace('+', d)
        if acc is None:
            acc = s
        else:
            if acc[-1] != d:
                return fixed_sign(p)
            if len(s) == 1:
                acc = s
    return acc


# Constants: numbers built of rationals by roots and quotients, no input in them.  Bounds in units of 2^-FP.

FP = 2048


def fixed_bounds(a):
    "integers (lo, hi) around a constant atom, False for other atoms"
    v = a.fixed
    if v is None:
        a.fixed = False
        if a.kind == 'def':
            v = fixed_poly(a.defn) if len(a.defn.t) < 200 else False
        elif a.kind == 'sqrt':
            v = fixed_poly(Poly({a.defn[1]: a.defn[0]}))
            if v:
                lo, hi = max(v[0], 0), v[1]
                v = (math.isqrt(lo << FP), math.isqrt(hi << FP) + 1) if hi >= 0 else False
        elif a.kind == 'max':
            x, y = [fixed_poly(q) for q in a.args]
            v = (max(x[0], y[0]), max(x[1], y[1])) if x and y else False
        else:
            v = False
        if v and (a.sign == '+' and v[1] <= 0 or a.sign == '0+' and v[1] < 0):
            raise AssertionError('the engine contradicts itself about the sign of %s' % a.name)
        a.fixed = v
    return v


def fixed_mul(x, y):
    ps = [u * w for u in x for w in y]
    return min(ps) >> FP, -(-max(ps) >> FP)


def fixed_term(c, exps):
    c = Fraction(c)
    n = c.numerator << FP
    acc = (n // c.denominator, -(-n // c.denominator))
    for a, e in exps:
        v = fixed_bounds(a)
        if not v:
            return False
        if e < 0:
            if v[0] <= 0 <= v[1]:
                return False
            v = ((1 << 2 * FP) // v[1], -(-(1 << 2 * FP) // v[0]))
            e = -e
        for _ in range(e):
            acc = fixed_mul(acc, v)
    return acc


def fixed_poly(p):
    lo = hi = 0
    for m, c in p.t.items():
        v = fixed_term(c, SP.exps(m))
        if not v:
            return False
        lo += v[0]
        hi += v[1]
    return lo, hi


def fixed_sign(p):
    "the sign of a constant times a positive term; None if it is not one, or too close to zero"
    common = None
    lo = hi = 0
    for m, c in p.t.items():
        ex = SP.exps(m)
        rest = [(a.idx, e) for a, e in ex if not fixed_bounds(a)]
        if common is None:
            common = rest
            if any(a.sign != '+' for a, e in ex if not a.fixed):
                return None
        elif rest != common:
            return None
        v = fixed_term(c, [(a, e) for a, e in ex if a.fixed])
        if not v:
            return None
        lo += v[0]
        hi += v[1]
    return '+' if lo > 0 else '-' if hi < 0 else None


def sqrt_const(c):
    """sqrt of a positive rational: (rational, squarefree integer under the root)."""
    c = Fraction(c)
    n = c.numerator * c.denominator
    r = Fraction(1, c.denominator)
    out, f = 1, 2
    while f * f <= n and f < 1000:
        while n % (f * f) == 0:
            n //= f * f
            out *= f
        f += 1
    s = math.isqrt(n)
    if s * s == n:
        return norm_coef(r * out * s), 1
    return norm_coef(r * out), n


def sqrt_poly(p):
    """The nonnegative square root of p, which the caller knows to be >= 0."""
    sp = SP
    p = drop_zero(p)
    if not p.t:
        return ZERO
    if len(p.t) > 1:
        r = poly_sqrt(p)
        if r is not None:
            return abs_poly(r)
    c, m = name_poly(p)
    if c < 0:
        # p >= 0 and p = c * term with c < 0: keep the sign inside a new name
        c, m = -c, m
        neg = True
    else:
        neg = False
    out = 0
    left = 0
    sgn = ONE
    for a, e in sp.exps(m):
        k, r = divmod(e, 2)
        if k and a.sign not in ('+', '0+'):
            sgn = sgn * abs_poly(Poly.atom(a)).pow_signed(k)
        elif k:
            out += k * a.mono
        if r:
            left += a.mono
    rc, free = sqrt_const(c)
    res = sgn.mulmono(rc, out)
    rad = -free if neg else free
    if left == 0 and rad == 1:
        return res
    key = ('sqrt', rad, left)
    a = sp.intern.get(key)
    if a is None:
        radp = Poly({left: rad}, True)
        f = root_vals(rad, left)
        a = None
        if not any(v != v or v == float('inf') for v in f[:6]):
            for f2, b in sp.fp.get(_fpkey(f[0]), ()):
                if b.sign in ('+', '0+') and all(abs(x - y) <= 1e-7 * (x + abs(y))
                                                 for x, y in zip(f, f2)):
                    try:
                        if zero_form(radp - Poly({2 * b.mono: 1}).mulmono(1, 0),
                                     limit=4000, work=40000).is_zero():
                            a = (1, b.mono)
                            sp.merges += 1
                            break
                    except Budget:
                        pass
        if a is None:
            at = sp.new('S%d' % len(sp.atoms), 'sqrt')
            at.defn = (rad, left)
            at.level = max([x.level for x in radp.atoms()] or [0])
            s = quick_sign(Poly({left: rad}))
            at.nz = s in ('+', '!')
            at.sign = '+' if at.nz else '0+'
            if not any(v != v or v == float('inf') for v in f[:6]):
                sp.fp.setdefault(_fpkey(f[0]), []).append((f[:6], at))
            a = (1, at.mono)
        sp.intern[key] = a
    res = res.mulmono(a[0], a[1])
    res.nn = True
    return res


def _pow_signed(self, k):
    if k >= 0:
        return self.pow(k)
    (m, c), = self.t.items()
    r = Poly({0: 1}).mulmono(Fraction(1) / Fraction(c), -m)
    return r.pow(-k)


Poly.pow_signed = _pow_signed


def abs_poly(p):
    p = drop_zero(p)
    s = quick_sign(p)
    if s in ('+', '0+', '0'):
        return p
    if s in ('-', '0-'):
        return -p
    sp = SP
    c, m = name_poly(p)
    pos, rest = 0, 0
    for a, e in sp.exps(m):
        if a.sign in ('+', '0+') or e % 2 == 0:
            pos += e * a.mono
        else:
            rest += e * a.mono
    res = Poly({0: 1}).mulmono(abs(c), pos)
    if rest:
        key = ('abs', rest)
        a = sp.intern.get(key)
        if a is None:
            sq = Poly({0: 1}).mulmono(1, 2 * rest)
            (m2, c2), = sq.t.items()
            a = sp.new('A%d' % len(sp.atoms), 'sqrt')
            a.defn = (c2, m2)
            a.level = max([x.level for x in sq.atoms()] or [0])
            a.sign = '0+'
            if quick_sign(Poly({rest: 1})) == '!':
                a.nz, a.sign = True, '+'
            sp.intern[key] = a
        res = res.mulmono(1, a.mono)
    res.nn = True
    return res


def inverse(p):
    """1/p for p known to be nonzero."""
    c, m = name_poly(p)
    mark_nz(m)
    r = Poly({0: 1}).mulmono(norm_coef(Fraction(1) / Fraction(c)), -m)
    return r


def mark_nz(m):
    "Record that a monomial is nonzero: every factor is."
    todo = [a for a, e in SP.exps(m)]
    while todo:
        a = todo.pop()
        if a.nz and (a.sign != '0+'):
            continue
        a.nz = True
        if a.sign == '0+':
            a.sign = '+'
        if a.kind == 'sqrt':
            todo += [b for b, e in SP.exps(a.defn[1])]
        for b in SP.sqrt_index:
            if not b.nz and quick_sign(Poly({b.defn[1]: b.defn[0]})) in ('+', '!'):
                todo.append(b)


def fixed_form(p):
    """p divided by the constant factor of its leading part, the other constants as single atoms: (p', sign of the
    factor), or None if there is no constant atom or no such factor."""
    if len(p.t) > 400 or not any(fixed_bounds(a) for a in p.atoms()):
        return None
    groups = {}
    for m, c in p.t.items():
        rest = 0
        for a, e in SP.exps(m):
            if not a.fixed:
                rest += e * a.mono
        groups.setdefault(rest, {})[m - rest] = c
    lead_ = max(groups)
    if len(groups) == 1:
        # a multiple of a constant
        s = fixed_sign(Poly(groups[lead_]))
        return (Poly({lead_: 1}), s) if s else None
    C0 = Poly(groups[lead_])
    if not any(a.fixed for a in C0.atoms()) and len(C0.t) == 1:
        s0, c0, m0 = '+', 1, 0
    else:
        s0 = fixed_sign(C0)
        if s0 is None:
            return None
        c0, m0 = name_poly(C0)
        c0 = abs(Fraction(c0))
    out = {}
    for rest, t in groups.items():
        if m0 and rest == lead_:
            out[rest] = 1 if s0 == '+' else -1
            continue
        C = Poly(t)
        if not any(a.fixed for a in C.atoms()) and not m0:
            out[rest] = t[0]
            continue
        sg = fixed_sign(C)
        if sg is None:
            return None
        c, m = name_poly(C)
        k, m = _term(abs(Fraction(c)) / c0, m - m0)
        if m:
            sm = fixed_sign(Poly({m: k}))          # the atoms in m need not be positive
            if sm is None:
                return None
            k, m = 1, fixed_atom(abs(k) if (k > 0) == (sm == '+') else -abs(k), m)
        out[rest + m] = norm_coef(k if sg == '+' else -k)
    return Poly(out), '+'


def fixed_atom(k, m):
    "a single atom equal to the positive constant k times m"
    key = ('fixed', k, m)
    r = SP.intern.get(key)
    if r is None:
        q = Poly({m: k})
        f = fingerprint_lookup(q, 20000, 400000)
        if f is not None and f[0] == 1:
            r = f[1]
        else:
            a = same_square(q)
            if a is None:
                a = SP.new('K%d' % len(SP.atoms), 'def')
                a.defn = q
                a.level = 1 + max([x.level for x in q.atoms()] or [0])
                a.sign, a.nz = '+', True
                fingerprint_store(q, a)
                SP.intern.setdefault('fixed', []).append(a)
            r = a.mono
        SP.intern[key] = r
    return r


def same_square(q):
    "a known constant atom whose square is provably that of q"
    v = fixed_poly(q)
    for a in SP.intern.get('fixed', ()) if v else ():
        b = fixed_bounds(a)
        if b and b[0] <= v[1] and v[0] <= b[1]:
            try:
                if zero_form(q * q - Poly({2 * a.mono: 1}), limit=20000, work=400000).is_zero():
                    return a
            except Budget:
                pass
            if os.environ.get('VERIF_DEBUG'):
                print('SAME?', show(q), show(a.defn))
    return None
