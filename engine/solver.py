"""SMT-LIB printing and a solver process kept alive."""
import os
import re
import select
import subprocess
import time
from fractions import Fraction

import poly
import sym
from poly import Poly

Z3 = os.environ.get('VERIF_Z3', '/usr/local/bin/z3-new')
if not os.path.exists(Z3):
    Z3 = 'z3'


def num(c):
    c = Fraction(c)
    if c < 0:
        return '(- %s)' % num(-c)
    if c.denominator == 1:
        return '%d.0' % c.numerator
    return '(/ %d.0 %d.0)' % (c.numerator, c.denominator)


def smt_poly_nonneg(terms, sp):
    "SMT term for a polynomial whose exponents are all >= 0"
    out = []
    for m, c in terms.items():
        fs = []
        for a, e in sp.exps(m):
            fs += ['v%d' % a.idx] * e
        if c != 1 or not fs:
            fs.insert(0, num(c))
        out.append(fs[0] if len(fs) == 1 else '(* %s)' % ' '.join(fs))
    if not out:
        return '0.0'
    return out[0] if len(out) == 1 else '(+ %s)' % ' '.join(out)


def clear_denominators(p):
    """q * (monomial d) == p with q free of negative exponents.  Returns (q, d)."""
    sp = poly.SP
    low = {}
    for m in p.t:
        for a, e in sp.exps(m):
            if e < low.get(a.idx, 0):
                low[a.idx] = e
    if not low:
        return p.t, 0
    d = sum(e << (poly.BITS * k) for k, e in low.items())
    return {m - d: c for m, c in p.t.items()}, d


def smt_rel(op, p):
    sp = poly.SP
    t, d = clear_denominators(p)
    body = smt_poly_nonneg(t, sp)
    s = 1
    if d:
        sg = poly.quick_sign(Poly({d: 1}))
        if op in ('<', '<=') and sg != '+':
            # multiply by the odd-power atoms of unknown sign once more
            extra = 0
            for a, e in sp.exps(d):
                if e % 2 and a.sign not in ('+', '0+'):
                    extra += a.mono
            t = {m + extra: c for m, c in t.items()}
            body = smt_poly_nonneg(t, sp)
    return {'<': '(< %s 0.0)', '<=': '(<= %s 0.0)', '==': '(= %s 0.0)',
            '!=': '(not (= %s 0.0))'}[op] % body


def smt(f):
    if f is True:
        return 'true'
    if f is False:
        return 'false'
    if isinstance(f, sym.Rel):
        return smt_rel(f.op, f.p)
    return '(%s %s)' % ('and' if isinstance(f, sym.And) else 'or', ' '.join(smt(x) for x in f.xs))


def size(f):
    if isinstance(f, bool):
        return 1
    if isinstance(f, sym.Rel):
        return sum(1 + len(poly.SP.exps(m)) for m in f.p.t)
    return sum(size(x) for x in f.xs)


def atom_facts(a):
    "Constraints true of the atom itself, not its definition."
    v = 'v%d' % a.idx
    out = []
    if a.sign == '+':
        out.append('(> %s 0.0)' % v)
    elif a.sign == '0+':
        out.append('(>= %s 0.0)' % v)
    elif a.nz:
        out.append('(not (= %s 0.0))' % v)
    if a.is_int and a.lo is not None:
        out.append('(or %s)' % ' '.join('(= %s %s)' % (v, num(k)) for k in range(a.lo, a.hi + 1))
                   if a.hi > a.lo else '(= %s %s)' % (v, num(a.lo)))
    elif a.lo is not None or a.hi is not None:
        if a.lo is not None:
            out.append('(>= %s %s)' % (v, num(a.lo)))
        if a.hi is not None:
            out.append('(<= %s %s)' % (v, num(a.hi)))
    return out


def atom_def(a):
    sp = poly.SP
    if a.kind == 'def':
        return [smt_rel('==', Poly.atom(a) - a.defn)]
    if a.kind == 'sqrt':
        c, m = a.defn
        t, d = clear_denominators(Poly({m: c}))
        lhs = {2 * a.mono - d: 1}
        return ['(= %s %s)' % (smt_poly_nonneg(lhs, sp), smt_poly_nonneg(t, sp))]
    if a.kind == 'max':
        p, q = a.args
        x = Poly.atom(a)
        return [smt_rel('<=', p - x), smt_rel('<=', q - x),
                '(or %s %s)' % (smt_rel('==', p - x), smt_rel('==', q - x))]
    if a.kind == 'floor':
        return [smt(f) for f in a.args[1]]
    return []


def def_atoms(a):
    if a.kind == 'def':
        return a.defn.atoms()
    if a.kind == 'sqrt':
        return Poly({a.defn[1]: 1}).atoms()
    if a.kind == 'max':
        return a.args[0].atoms() | a.args[1].atoms()
    if a.kind == 'floor':
        s = set()
        for f in a.args[1]:
            sym.f_atoms(f, s)
        s.discard(a)
        return s
    return set()


BOUND = 300


def fixed_facts(a):
    "tight rational bounds of a constant"
    lo, hi = a.fixed
    k = max(0, max(abs(lo), abs(hi)).bit_length() - BOUND)
    lo, hi = lo >> k, -(-hi >> k)
    u = Fraction(1 << k, 1 << poly.FP)
    v = 'v%d' % a.idx
    return ['(<= %s %s)' % (num(lo * u), v), '(<= %s %s)' % (v, num(hi * u))]


def has_fixed(fs):
    ats = set()
    for f in fs:
        sym.f_atoms(f, ats)
    return any(poly.fixed_bounds(a) for a in ats)


def script(fs, depth, fixed=None, bounds=False):
    """SMT-LIB text asserting all of fs, with definitions unfolded `depth` levels
    (None: all).  fixed: {atom: Fraction}.  bounds: constants are given by tight rational bounds, not by
    their definitions (a relaxation)."""
    ats = set()
    for f in fs:
        sym.f_atoms(f, ats)
    done = set()
    frontier = set(ats)
    lines = []
    d = 0
    while frontier and (depth is None or d < depth):
        new = set()
        for a in frontier:
            done.add(a)
            if bounds and poly.fixed_bounds(a):
                continue
            lines += ['(assert %s)' % x for x in atom_def(a)]
            new |= def_atoms(a)
        ats |= new
        frontier = new - done
        d += 1
    decl = ['(declare-const v%d Real)' % a.idx for a in sorted(ats, key=lambda x: x.idx)]
    facts = ['(assert %s)' % x for a in ats for x in atom_facts(a)]
    if bounds:
        facts += ['(assert %s)' % x for a in ats if poly.fixed_bounds(a) for x in fixed_facts(a)]
    if fixed:
        for a in ats:
            if a in fixed:
                facts.append('(assert (= v%d %s))' % (a.idx, num(fixed[a])))
    body = ['(assert %s)' % smt(f) for f in fs]
    return decl + facts + lines + body, ats


class Solver(object):
    def __init__(self, path=None):
        self.path = path or Z3
        self.p = None
        self.queries = 0
        self.time = 0.0
        self.by = {'sat': 0, 'unsat': 0, 'unknown': 0}

    def _start(self):
        self.p = subprocess.Popen([self.path, '-in', '-smt2', '-memory:3000'], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.buf = b''

    def close(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
                self.p.stdin.close()
                self.p.stdout.close()
            except Exception:
                pass
            self.p = None

    def _read(self, mark, limit):
        end = time.time() + limit
        fd = self.p.stdout.fileno()
        while mark not in self.buf:
            left = end - time.time()
            if left <= 0:
                return None
            r, _, _ = select.select([fd], [], [], left)
            if r:
                b = os.read(fd, 65536)
                if not b:
                    return None
                self.buf += b
        out, self.buf = self.buf.split(mark, 1)
        return out.decode()

    def check(self, lines, timeout=2.0, want=(), tactic='qfnra-nlsat'):
        """'sat' | 'unsat' | 'unknown', {name: float}"""
        t0 = time.time()
        self.queries += 1
        if self.p is None or self.p.poll() is not None:
            self._start()
        cs = ('(check-sat-using (try-for %s %d))' % (tactic, int(timeout * 1000))
              if tactic else '(set-option :timeout %d)\n(check-sat)' % int(timeout * 1000))
        text = ['(reset)', '(set-option :pp.decimal true)', '(set-option :pp.decimal_precision 20)'] \
            + lines + [cs, '(echo "@@1")']
        res, model = 'unknown', {}
        try:
            self.p.stdin.write(('\n'.join(text) + '\n').encode())
            self.p.stdin.flush()
            out = self._read(b'@@1\n', timeout + 3.0)
            if out is None or '(error' in out:
                if out is not None and os.environ.get('VERIF_DEBUG'):
                    print('SOLVER ERROR', out[:300])
                self.close()
            else:
                words = out.split()
                res = words[-1] if words and words[-1] in ('sat', 'unsat') else 'unknown'
            if res == 'sat' and want:
                self.p.stdin.write(('(get-value (%s))\n(echo "@@2")\n' % ' '.join(want)).encode())
                self.p.stdin.flush()
                out = self._read(b'@@2\n', 5.0)
                if out is None or '(error' in out:
                    self.close()
                    res = 'unknown'
                else:
                    model = parse_model(out)
        except (OSError, ValueError):
            self.close()
        self.by[res] += 1
        self.time += time.time() - t0
        return res, model


TOK = re.compile(r'[()]|[^\s()]+')


def parse_model(text):
    toks = TOK.findall(text)
    pos = [0]

    def parse():
        t = toks[pos[0]]
        pos[0] += 1
        if t == '(':
            out = []
            while toks[pos[0]] != ')':
                out.append(parse())
            pos[0] += 1
            return out
        return t

    def val(e):
        if isinstance(e, str):
            return float(Fraction(e.rstrip('?')))
        if e[0] == '-':
            return -val(e[1]) if len(e) == 2 else val(e[1]) - val(e[2])
        if e[0] == '/':
            return val(e[1]) / val(e[2])
        raise ValueError(e)

    out = {}
    for name, e in parse():
        try:
            out[name] = val(e)
        except (ValueError, ZeroDivisionError):
            out[name] = None
    return out
