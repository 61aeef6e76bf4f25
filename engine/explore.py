"""Path exploration by stateless re-execution, and the obligations of each path."""
import json
import math
import os
import random
import time
import traceback
import zlib
from fractions import Fraction

import poly
import sym
import solver as slv
from poly import Poly, ZERO, ONE, quick_sign
from sym import (S, Rel, rel, f_and, f_or, f_not, f_eval, f_atoms, PathEnd, Unsupported,
                 Inconclusive, SymBool, mkbool, PYF, PYI)

DEBUG = os.environ.get('VERIF_DEBUG')


class Params(object):
    "Per-case knobs; each is part of the stated bounds."
    max_paths = 400
    budget_s = 40.0
    feas_timeout = 0.3
    prove_timeout = 4.0
    mul_limit = 160          # products with more term pairs name their factors
    name_numerators = 6      # numerators with more terms are named when divided
    fork_abs = False
    zero_limit = 20000
    zero_work = 3000000
    div0 = 'fork'            # 'cut': paths dividing by zero end; 'known': end unless shown possible (stated)
    max_decisions = 400
    crosscheck = 3
    raw_size = 120
    nsamples = 40

    def __init__(self, **kw):
        for k, v in kw.items():
            if not hasattr(type(self), k):
                raise TypeError(k)
            setattr(self, k, v)


    def deeper(self, k):
        p = type(self)()
        p.__dict__.update(self.__dict__)
        p.max_paths = self.max_paths * k
        p.budget_s = self.budget_s * k
        p.prove_timeout = self.prove_timeout * 2
        p.zero_work = self.zero_work * 3
        p.zero_limit = self.zero_limit * 2
        p.crosscheck = self.crosscheck * 2
        return p


def sample_value(rng, sign, nz, lo, hi, is_int, i):
    if is_int:
        return Fraction(rng.randint(lo, hi))
    while True:
        r = rng.random()
        if lo is not None and hi is not None:
            v = Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(rng.randint(0, 64), 64)
        elif r < 0.75 or i < 6:
            v = Fraction(rng.randint(-48, 48), 16)
        elif r < 0.9:
            v = Fraction(rng.randint(-3, 3))
        else:
            v = Fraction(rng.randint(-40, 40), 4)
        if sign == '+':
            v = abs(v)
            if v == 0:
                continue
        elif sign == '0+':
            v = abs(v)
        if (nz or i < 6) and v == 0:
            continue
        if lo is not None and v < lo or hi is not None and v > hi:
            continue
        return v


class PathCtx(object):
    "One execution of the harness along one path."

    def __init__(self, case, prefix, solver, params, stats, deadline, seed, extra=()):
        self.case = case
        self.prefix = prefix
        self.trace = []              # decisions taken: (taken, )
        self.alternatives = []       # prefixes to explore
        self.solver = solver
        self.P = params
        self.stats = stats
        self.deadline = deadline
        self.seed = seed
        self.extra = list(extra)     # witness points found by the solver: {input name: value}
        self.sp = poly.Space(params.nsamples + len(self.extra), seed)
        poly.set_space(self.sp)
        sym.set_ctx(self)
        self.mul_limit = params.mul_limit
        self.name_numerators = params.name_numerators
        self.fork_abs = params.fork_abs
        self.path = []               # formulas
        self.facts = {}
        self.alive = list(range(self.sp.nsamples))
        self.witnessed = True
        self.inputs = []             # input atoms, in creation order
        self.choices = []
        self.log = []                # (label, [S or plain]) for cross validation
        self.failures = []           # [(label, why, point)]
        self.unproved = []           # labels
        self.names = set()
        self.numeric_pool = None
        self.assumed = []
        self.ninconclusive = 0

    # -- inputs --------------------------------------------------------
    def input(self, name, sign=None, nz=False, lo=None, hi=None, is_int=False, garbage=False):
        base = name
        k = 1
        while name in self.names:
            k += 1
            name = '%s#%d' % (base, k)
        self.names.add(name)
        a = self.sp.new(name, 'input')
        a.sign, a.nz = sign, nz or sign == '+'
        a.lo, a.hi = lo, hi
        if lo is not None and sign is None:
            a.sign = '+' if lo > 0 else '0+' if lo >= 0 else None
            a.nz = a.nz or lo > 0
        a.is_int = is_int
        a.garbage = garbage
        vals = []
        nrand = self.sp.nsamples - len(self.extra)
        for i in range(nrand):
            rng = random.Random(zlib.crc32(('%s/%d/%d' % (name, i, self.seed)).encode()))
            vals.append(float(sample_value(rng, a.sign, a.nz, lo, hi, is_int, i)))
        for pt in self.extra:
            vals.append(float(pt.get(name, vals[0])))
        a.vals = vals
        self.inputs.append(a)
        return a

    def var(self, name, sign=None, nz=False, lo=None, hi=None, is_int=False):
        "an arbitrary number"
        return Poly.atom(self.input(name, sign, nz, lo, hi, is_int))

    def fresh_garbage(self):
        # the content of uninitialised memory: any number
        a = self.input('uninit', nz=True, garbage=True)
        a.vals = [v * 7.3 + 1000.0 for v in a.vals]
        return Poly.atom(a)

    def max_atom(self, p, q):
        d = p - q
        key = ('max', p.key(), q.key())
        a = self.sp.intern.get(key) or self.sp.intern.get(('max', q.key(), p.key()))
        if a is None:
            a = self.sp.new('M%d' % len(self.sp.atoms), 'max')
            a.args = (p, q)
            a.level = 1 + max([x.level for x in p.atoms() | q.atoms()] or [0])
            s1, s2 = quick_sign(p), quick_sign(q)
            if '+' in (s1, s2):
                a.sign, a.nz = '+', True
            elif '0+' in (s1, s2):
                a.sign = '0+'
            self.sp.intern[key] = a
        return Poly.atom(a)

    def fresh_floor(self, a, b):
        at = self.sp.new('F%d' % len(self.sp.atoms), 'floor')
        x = Poly.atom(at)
        r = a.re - x * b.re          # remainder
        inb = f_or(f_and(rel('<', -b.re), rel('<=', -r), rel('<', r - b.re)),
                   f_and(rel('<', b.re), rel('<=', r), rel('<', b.re - r)))
        at.vals = floor_vals(a.re, b.re)
        at.args = (None, [inb], a.re, b.re)
        # integrality: bounded, |q| <= 64
        at.lo, at.hi, at.is_int = -64, 64, True
        at.level = 1 + max([y.level for y in a.re.atoms() | b.re.atoms()] or [0])
        return x

    def fresh_trunc(self, a):
        raise Unsupported('truncation of a symbolic real to an integer')

    # -- decisions -----------------------------------------------------
    def known_sign(self, p):
        if not self.facts:
            return None
        c, m, q = poly.split_content(p)
        ms = quick_sign(Poly({m: 1}))
        if ms is None:
            return None
        r = self.facts.get(q.key())
        flip = False
        if r is None:
            r = self.facts.get((-q).key())
            flip = True
            if r is None:
                return None
        if ms != '+':
            if r in ('!', '+', '-'):
                return '!'
            return '0' if r == '0' else None
        if flip:
            r = {'+': '-', '-': '+', '0+': '0-', '0-': '0+'}.get(r, r)
        return r

    def learn(self, f):
        if isinstance(f, sym.And):
            for x in f.xs:
                self.learn(x)
            return
        if not isinstance(f, Rel):
            return
        c, m, q = poly.split_content(f.p)
        ms = quick_sign(Poly({m: 1}))
        if f.op == '!=':
            poly.mark_nz(m)
        if q is ONE or q.is_const():
            self._learn_term(f.op, m, q.constval())
            return
        if ms is None and f.op != '!=':
            return
        if ms != '+' and f.op in ('<', '<='):
            return
        s = {'<': '-', '<=': '0-', '==': '0', '!=': '!'}[f.op]
        k = q.key()
        old = self.facts.get(k)
        if old == '!' and s == '0-' or old == '0-' and s == '!':
            s = '-'
        elif old == '0+' and s == '!':
            s = '+'
        elif old in ('+', '-', '0') and s in ('!', '0-', '0+'):
            s = old
        self.facts[k] = s
        for qq, flip in ((q, False), (-q, True)):
            t = self.sp.intern.get(('def', qq.key()))
            if t is not None:
                es = self.sp.exps(t[1])
                if len(es) == 1 and es[0][1] == 1:
                    a = es[0][0]
                    sg = s if (t[0] > 0) != flip else {'-': '+', '0-': '0+'}.get(s, s)
                    if sg in ('!', '+', '-'):
                        a.nz = True
                    if sg in ('+', '0+') and a.sign != '+':
                        a.sign = '+' if (sg == '+' or a.nz) else '0+'

    def _learn_term(self, op, m, c):
        un = [(a, e) for a, e in self.sp.exps(m) if e % 2 and a.sign not in ('+', '0+')]
        if op == '<':
            poly.mark_nz(m)
            if len(un) == 1 and c < 0:
                un[0][0].sign, un[0][0].nz = '+', True
        elif op == '<=':
            if len(un) == 1 and c < 0:
                others = [a for a, e in self.sp.exps(m) if a is not un[0][0]]
                if all(a.nz for a in others):
                    un[0][0].sign = '+' if un[0][0].nz else '0+'

    def commit(self, f):
        if f is True:
            return
        self.path.append(f)
        self.alive = [i for i in self.alive if f_eval(f, i)]
        self.learn(f)
        self.narrow(f)

    def narrow(self, f):
        if isinstance(f, Rel):
            ats = f.p.atoms()
            if len(ats) == 1:
                (a,) = ats
                if a.is_int and a.lo is not None and a.kind == 'input':
                    ok = [v for v in range(a.lo, a.hi + 1) if int_holds(f, a, v)]
                    if ok:
                        a.lo, a.hi = min(ok), max(ok)

    def int_decide(self, f):
        ats = f_atoms(f)
        if len(ats) == 1:
            (a,) = ats
            if a.is_int and a.lo is not None and a.kind == 'input' and isinstance(f, Rel):
                rs = set(int_holds(f, a, v) for v in range(a.lo, a.hi + 1))
                if len(rs) == 1:
                    return rs.pop()
                return 'both'
        return None

    def add_point(self, pt):
        "A solver model becomes one more sample point (a witness of this path)."
        sp = self.sp
        self.extra.append(pt)
        sp.nsamples += 1
        for a in self.inputs:
            a.vals.append(float(pt.get(a.name, a.vals[0])))
        for a in sp.atoms:
            if a.kind == 'floor':
                x, y = a.args[2], a.args[3]
                a.vals = floor_vals(x, y)
            if a.hv is not None:
                a.hv.pop(sp.nsamples - 1, None)
        i = sp.nsamples - 1
        if all(f_eval(f, i) for f in self.path):
            self.alive.append(i)

    def feasible(self, f):
        """True / False / None (unknown)."""
        self.model = None
        for i in self.alive:
            if f_eval(f, i, 1e-9):
                return True
        fs = self.path + [f]
        n = sum(slv.size(x) for x in fs)
        if n > 6000:
            return None
        if slv.has_fixed([f]):
            mine = f_atoms(f)
            near = [g for g in self.path if f_atoms(g) & mine]
            lines, ats = slv.script(near + [f], 0, bounds=True)
            if self.query(lines, self.P.feas_timeout / 2, 'feas')[0] == 'unsat':
                return False
            lines, ats = slv.script(fs, None, bounds=True)
            if sum(len(x) for x in lines) <= 60000:
                want = ['v%d' % a.idx for a in ats if a.kind == 'input']
                r, m = self.query(lines, self.P.feas_timeout, 'feas', want)
                if r == 'unsat':
                    return False
                if r == 'sat':
                    self.model = self.point_from_model(m)
                    return True
        # the formula alone, definitions one level deep, then everything
        lines, ats = slv.script([f], 1)
        r, _ = self.query(lines, self.P.feas_timeout / 4, 'feas')
        if r == 'unsat':
            return False
        # with what the path says about the same quantities alone
        mine = f_atoms(f)
        rel_ = [g for g in self.path if f_atoms(g) <= mine]
        if rel_ and len(rel_) < len(self.path):
            for depth in (0, 1):
                lines, ats = slv.script(rel_ + [f], depth)
                r, _ = self.query(lines, self.P.feas_timeout / 4, 'feas')
                if r == 'unsat':
                    return False
        lines, ats = slv.script(fs, None)
        if sum(len(x) for x in lines) > 60000:
            return None
        want = ['v%d' % a.idx for a in ats if a.kind == 'input']
        r, m = self.query(lines, self.P.feas_timeout * (1 if self.witnessed else 0.5), 'feas', want)
        if r == 'sat':
            self.model = self.point_from_model(m)
        return {'sat': True, 'unsat': False}.get(r)

    def query(self, lines, timeout, why, want=()):
        left = self.deadline - time.time()
        if why == 'prove' and not self.witnessed:
            timeout *= 0.3
        if left < 0.05:
            return 'unknown', {}
        r = self.solver.check(lines, min(timeout, left), want)
        st = self.stats['q_' + why] = self.stats.get('q_' + why, 0) + 1
        return r

    def decide(self, f, breakdown=False):
        f = sym.fof(f)
        if f is True or f is False:
            return f
        if isinstance(f, Rel):
            g = rel(f.op, f.p)        # facts may have grown since it was built
            if g is True or g is False:
                return g
        k = self.int_decide(f)
        if k is True or k is False:
            return k
        pos = len(self.trace)
        if pos < len(self.prefix):
            taken = self.prefix[pos]
            self.trace.append(taken)
            self.commit(f if taken else f_not(f))
            return taken
        if time.time() > self.deadline:
            raise Inconclusive('time budget of the case exhausted')
        if pos >= self.P.max_decisions:
            raise Inconclusive('more than %d decisions on one path' % self.P.max_decisions)
        nf = f_not(f)
        if k == 'both':
            ft = ff = True
            mt = mf = None
        else:
            ft = self.feasible(f)
            mt = self.model
            if ft is False:
                self.stats['pruned'] = self.stats.get('pruned', 0) + 1
                # implied: no need to record a decision, but keep it replayable
                self.trace.append(False)
                self.commit(nf)
                return False
            if ft is None and breakdown and self.P.div0 != 'fork':
                # a breakdown nobody can show to be possible: assumed away, and counted
                self.stats['breakdown_assumed_away'] = self.stats.get('breakdown_assumed_away', 0) + 1
                self.trace.append(False)
                self.commit(nf)
                return False
            ff = self.feasible(nf)
            mf = self.model
            if ff is False:
                self.stats['pruned'] = self.stats.get('pruned', 0) + 1
                self.trace.append(True)
                self.commit(f)
                return True
        if DEBUG and 'fork' in DEBUG:
            where = [x for x in traceback.extract_stack() if 'engine' not in x.filename][-1]
            print('FORK t=%s f=%s alive=%d at %s:%s %s' % (ft, ff, len(self.alive), os.path.basename(where.filename),
                                                          where.lineno, where.line), str(f)[:300])
        # prefer the side with sample witnesses
        nt = sum(1 for i in self.alive if f_eval(f, i))
        taken = nt * 2 >= len(self.alive)
        if not self.alive:
            taken = ft is True or ff is not True
        other, om = (ff, mf) if taken else (ft, mt)
        self.alternatives.append((self.trace + [not taken], self.extra + ([om] if om else []),
                                  other is True and self.witnessed))
        self.trace.append(taken)
        mine, mm = (ft, mt) if taken else (ff, mf)
        self.commit(f if taken else nf)
        if mm:
            self.add_point(mm)
        if mine is None and not self.alive:
            self.witnessed = False
        return taken

    def settle(self, f):
        """True / False when the path implies f or its negation, None otherwise; never forks."""
        f = sym.fof(f)
        if f is True or f is False:
            return f
        pos = len(self.trace)
        if pos < len(self.prefix):
            v = self.prefix[pos]
        elif time.time() > self.deadline:
            raise Inconclusive('time budget of the case exhausted')
        elif self.feasible(f_not(f)) is False:
            v = 'T'
        elif self.feasible(f) is False:
            v = 'F'
        else:
            v = 'N'
        self.trace.append(v)
        if v == 'N':
            return None
        self.commit(f if v == 'T' else f_not(f))
        return v == 'T'

    def decide_zero(self, f):
        "Is a denominator zero?"
        if f is True or f is False:
            return f
        if self.P.div0 == 'cut':
            g = f_not(f)
            self.commit(g)
            self.stats['div0_cut'] = self.stats.get('div0_cut', 0) + 1
            return False
        return self.decide(f, True)

    def choose(self, name, n):
        "Fork over n options (finite structural nondeterminism)."
        pos = len(self.trace)
        if pos < len(self.prefix):
            v = self.prefix[pos]
        else:
            v = 0
            for k in range(1, n):
                self.alternatives.append((self.trace + [k], [], True))
        self.trace.append(v)
        self.choices.append(v)
        return v

    def assume(self, f):
        f = sym.fof(f)
        if f is True:
            return
        if f is False:
            raise PathEnd('assumption false')
        if isinstance(f, Rel):
            f = rel(f.op, f.p)
            if f is True:
                return
            if f is False:
                raise PathEnd('assumption false')
        if len(self.trace) >= len(self.prefix) and self.feasible(f) is False:
            raise PathEnd('assumption infeasible')
        self.commit(f)

    # -- models --------------------------------------------------------
    def point_from_sample(self, i):
        return dict((a.name, a.vals[i]) for a in self.inputs)

    def point_from_model(self, model):
        d = {}
        for a in self.inputs:
            v = model.get('v%d' % a.idx)
            d[a.name] = v if v is not None else a.vals[self.alive[0] if self.alive else 0]
        return d

    def witness(self):
        "A point on this path: (point, how) or None."
        if self.alive:
            return self.point_from_sample(self.alive[0]), 'sample'
        lines, ats = slv.script(self.path, None)
        if sum(len(x) for x in lines) > 60000:
            return None
        want = ['v%d' % a.idx for a in ats if a.kind == 'input']
        bound = ['(assert (and (<= v%d 64.0) (>= v%d (- 64.0))))' % (a.idx, a.idx)
                 for a in ats if a.kind == 'input']
        r, m = self.query(lines + bound, self.P.prove_timeout, 'witness', want)
        if r == 'sat':
            return self.point_from_model(m), 'model'
        return None

    # -- obligations ---------------------------------------------------
    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def prove(self, label, f, kind='claim'):
        """Decide whether f holds on every input that follows this path."""
        f = sym.fof(f)
        self.count('obligations')
        if len(self.trace) < len(self.prefix):
            # re-execution: this obligation was decided on the parent path already
            self.count('obligations', -1)
            return True
        if f is True:
            # settled by signs or by concrete evaluation on this path
            self.count('discharged')
            self.count('by_evaluation')
            return True
        nf = f_not(f)
        cand = self.numeric_violation(f)
        if cand is None:
            if self.prove_unsat(nf):
                self.count('discharged')
                return True
            m = self.solver_violation(nf)
            if m == 'unsat':
                self.count('discharged')
                return True
            if m is None:
                self.inconclusive(label, 'solver gave no verdict')
                return True
            self.count('refuted')
            self.failures.append((label, 'solver model', [m], self.describe(f)))
            return False
        if cand and cand[0].get('uninit') is not None:
            pass
        verdict = self.confirm(nf, cand)
        if verdict is None:
            self.inconclusive(label, 'candidate not confirmed by the solver')
            return True
        self.count('refuted')
        self.failures.append((label, verdict, cand, self.describe(f)))
        return False

    def prove_equal(self, label, pairs):
        """Decide that a = b for all the pairs (a, b), on every input of this path."""
        if len(self.trace) < len(self.prefix):
            return True
        self.count('obligations')
        bad, rest = [], []
        for a, b in pairs:
            p = square_form(a - b)
            if p.is_zero():
                continue
            if not poly.looks_zero(p):
                bad.append(p)
            else:
                rest.append(p)
        if not bad and not rest:
            # equal canonical forms; the solver is asked about the two sides as they are
            lines = self.sides(pairs)
            r, _ = self.query(lines, 1.0, 'prove')
            if r == 'sat' and self.prove_unsat(f_or(*[Rel('!=', a - b) for a, b in pairs])):
                r = 'unsat'      # equal by their definitions (roots of equal squares)
            self.count('by_normal_form')
            if r == 'unsat':
                self.count('discharged')
            else:
                self.inconclusive(label, 'equal normal forms, solver: %s' % r)
            return True
        if not bad:
            # first the solver alone, on the definitions as they stand
            claim = f_or(*[Rel('!=', p) for p in rest])
            if slv.size(claim) <= self.P.raw_size:
                for depth in (1, None):
                    lines, _ = slv.script([claim], depth)
                    if sum(len(x) for x in lines) > 12000:
                        break
                    r, _ = self.query(lines, 0.25, 'prove')
                    if r == 'unsat':
                        self.count('discharged')
                        self.count('by_solver_alone')
                        return True
                    if r == 'sat':
                        break
            left, whole = [], []
            for p in rest:
                try:
                    q = poly.zero_form(p, self.P.zero_limit, self.P.zero_work)
                except poly.Budget:
                    q = p
                    self.count('zero_budget')
                if not q.is_zero():
                    left.append(q)
                    whole.append(p)
            if not left:
                # what the solver gets is the unfolded difference
                # (nothing is left of it)
                self.count('discharged')
                self.count('by_unfolding')
                return True
            # q is p without its common factors: p != 0 implies q != 0, not conversely
            m = self.solver_violation(f_or(*[Rel('!=', p) for p in left]))
            if m not in ('unsat', None):
                m = self.solver_violation(f_or(*[Rel('!=', p) for p in whole]))
            if m == 'unsat':
                self.count('discharged')
                return True
            if m is None:
                if DEBUG:
                    for q in rest:
                        print('REST', len(q.t), poly.show(q, 6))
                        for a in sorted(q.atoms(), key=lambda x: x.idx):
                            if a.defn is not None and a.kind == 'def': print('    ', a.name, '=', poly.show(a.defn, 5), len(a.defn.t), a.level)
                self.inconclusive(label, 'identity: no verdict (%d parts)' % len(left))
                return True
            self.count('refuted')
            self.failures.append((label, 'solver model', [m], 'nonzero difference'))
            return False
        nf = f_or(*[Rel('!=', p) for p in bad])
        cand = self.numeric_violation(f_not(nf))
        if cand is None:
            if self.prove_unsat(nf):
                self.count('discharged')
                return True
            m = self.solver_violation(nf)
            if m == 'unsat':
                self.count('discharged')
                return True
            if m is None:
                if DEBUG:
                    for q in bad: print('BAD', len(q.t), poly.show(q, 6), q.vals()[:4], q.mags()[:4], self.alive)
                self.inconclusive(label, 'equality: no verdict')
                return True
            self.count('refuted')
            self.failures.append((label, 'solver model', [m], self.describe(bad[0])))
            return False
        verdict = self.confirm(nf, cand)
        self.count('refuted')
        self.failures.append((label, verdict, cand, 'difference ' + poly.show(bad[0], 4)))
        return False

    def sides(self, pairs):
        import solver as slv
        ats, body, n = set(), [], 0
        for a, b in pairs:
            ta, da = slv.clear_denominators(a)
            tb, db = slv.clear_denominators(b)
            n += len(ta) + len(tb)
            if n > 1500:
                break
            if da == db:
                ats |= Poly(ta).atoms() | Poly(tb).atoms()
                body.append('(not (= %s %s))' % (slv.smt_poly_nonneg(ta, self.sp),
                                                 slv.smt_poly_nonneg(tb, self.sp)))
        if not body:
            return ['(assert false)']
        return (['(declare-const v%d Real)' % a.idx for a in ats]
                + ['(assert (or %s))' % ' '.join(body) if len(body) > 1 else '(assert %s)' % body[0]])

    def describe(self, f):
        if isinstance(f, Rel):
            return 'negation of  %s %s 0' % (poly.show(f.p, 4), f.op)
        return type(f).__name__

    def inconclusive(self, label, why):
        self.count('inconclusive')
        d = self.stats.setdefault('inconclusive_list', [])
        if len(d) < 40:
            d.append('%s: %s' % (label, why))
        if DEBUG:
            print('INCONCLUSIVE', self.case, label, why)

    def prove_unsat(self, nf):
        n = slv.size(nf)
        P = self.P
        tries = []
        if slv.has_fixed([nf]):
            mine = f_atoms(nf)
            lines, _ = slv.script([g for g in self.path if f_atoms(g) & mine] + [nf], 0, bounds=True)
            if self.query(lines, 0.6, 'prove')[0] == 'unsat':
                return True
            lines, _ = slv.script(self.path + [nf], None, bounds=True)
            if sum(len(x) for x in lines) <= 200000 and self.query(lines, 0.6, 'prove')[0] == 'unsat':
                return True
        if n <= 4000:
            tries.append(([nf], 0, 0.3))
            tries.append(([nf], 1, 0.6))
            tries.append(([nf], 2, 0.6))
        for fs, depth, to in tries:
            lines, _ = slv.script(fs, depth)
            if sum(len(x) for x in lines) > 200000:
                break
            r, _ = self.query(lines, to, 'prove')
            if r == 'unsat':
                return True
            if r == 'sat' and depth is not None and not any(a.kind != 'input' for a in f_atoms(nf)):
                break
        # with what the path says about the same quantities
        mine = set(f_atoms(nf))
        for depth in (0, 1, 2):
            rel_ = [g for g in self.path if f_atoms(g) <= mine]
            if rel_ and len(rel_) < len(self.path):
                lines, ats = slv.script(rel_ + [nf], depth)
                if sum(len(x) for x in lines) > 200000:
                    break
                r, _ = self.query(lines, 0.4, 'prove')
                if r == 'unsat':
                    return True
            for a in list(mine):
                mine |= slv.def_atoms(a)
        # with the path condition, shallow
        for depth in (0, 1, 2):
            lines, _ = slv.script(self.path + [nf], depth)
            if sum(len(x) for x in lines) > 200000:
                break
            r, _ = self.query(lines, 0.6, 'prove')
            if r == 'unsat':
                return True
        return False

    def solver_violation(self, nf):
        "Full query: a model point, 'unsat' or None."
        lines, ats = slv.script(self.path + [nf], None)
        if sum(len(x) for x in lines) > 300000:
            return None
        want = ['v%d' % a.idx for a in ats if a.kind == 'input']
        bound = ['(assert (and (<= v%d 64.0) (>= v%d (- 64.0))))' % (a.idx, a.idx)
                 for a in ats if a.kind == 'input']
        r, m = self.query(lines + bound, self.P.prove_timeout / 2, 'prove', want)
        if r == 'sat':
            return self.point_from_model(m)
        r, m = self.query(lines, self.P.prove_timeout, 'prove', want)
        if r == 'unsat':
            return 'unsat'
        if r == 'sat':
            return self.point_from_model(m)
        return None

    def numeric_violation(self, f):
        """Sample points on this path where f is false by a clear margin: candidates
        for the solver to confirm (never a verdict)."""
        out = []
        for i in self.alive:
            if clearly_false(f, i):
                out.append(i)
            if len(out) >= 3:
                break
        return [self.point_from_sample(i) for i in out] or None

    def confirm(self, nf, cands):
        for pt in cands[:2]:
            fixed = dict((a, Fraction(pt[a.name]).limit_denominator(4096)) for a in self.inputs)
            lines, ats = slv.script(self.path + [nf], None, fixed)
            if sum(len(x) for x in lines) > 200000:
                continue
            r, _ = self.query(lines, 1.5, 'confirm')
            if r == 'sat':
                return 'solver model (inputs proposed by sampling)'
        return 'candidate point (solver timed out on the confirmation)'


class Pinned(PathCtx):
    """The same execution with every input fixed, in exact arithmetic: does a counterexample
    fail there too, or only by rounding?"""

    def __init__(self, case, solver, params, deadline, seed, point, choices):
        PathCtx.__init__(self, case, [], solver, params, {}, deadline, seed)
        self.point = point
        self.picks = list(choices)

    def var(self, name, sign=None, nz=False, lo=None, hi=None, is_int=False):
        base, k = name, 1
        while name in self.names:
            k += 1
            name = '%s#%d' % (base, k)
        self.names.add(name)
        v = self.point.get(name)
        if v is None:
            v = 1 if lo is None else lo
        return Poly.const(poly.norm_coef(Fraction(v)))

    def fresh_garbage(self):
        return Poly.const(Fraction(2469, 2))

    def decide_zero(self, f):
        f = sym.fof(f)
        z = self.decide(f)
        if z and self.P.div0 == 'cut':
            raise PathEnd('division by zero')
        return z

    def choose(self, name, n):
        v = self.picks.pop(0) if self.picks else 0
        self.choices.append(v)
        return v


def exact_point(pt):
    "the rational numbers meant by a counterexample, or None"
    out = {}
    for k, v in pt.items():
        if v is None:
            continue
        f = Fraction(v).limit_denominator(100000)
        if abs(float(f) - float(v)) > 1e-14 * max(1.0, abs(float(v))):
            return None
        out[k] = f
    return out


def square_form(p):
    "u - v with u, v >= 0 single terms  ->  u*u - v*v (which removes square roots)"
    if len(p.t) != 2:
        return p
    (m1, c1), (m2, c2) = p.t.items()
    if (c1 > 0) == (c2 > 0):
        return p
    if any(quick_sign(Poly({m: 1})) not in ('+', '0+') for m in (m1, m2)):
        return p
    u, v = Poly({m1: c1}), Poly({m2: c2})
    return u * u - v * v


def floor_vals(p, q):
    return [float(math.floor(u / v)) if v and u == u and abs(u) != float('inf') else float('nan')
            for u, v in zip(p.vals(), q.vals())]


def int_holds(f, a, v):
    val = Fraction(0)
    for m, c in f.p.t.items():
        e = poly.SP.exp_of(m, a)
        val += Fraction(c) * Fraction(v) ** e
    return {'<': val < 0, '<=': val <= 0, '==': val == 0, '!=': val != 0}[f.op]


def clearly_false(f, i):
    if f is True:
        return False
    if f is False:
        return True
    if isinstance(f, Rel):
        v = f.p.vals()[i]
        if v != v or abs(v) == float('inf'):
            return False
        mg = f.p.mags()[i]
        tol = 1e-5 * (mg if mg == mg else 1.0) + 1e-9
        if f.op in ('<', '<='):
            return v > tol
        if f.op == '==':
            return abs(v) > tol
        return False
    if isinstance(f, sym.And):
        return any(clearly_false(x, i) for x in f.xs)
    return all(clearly_false(x, i) for x in f.xs)
