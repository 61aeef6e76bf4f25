"""Explores the cases of a property in parallel, replays counterexamples, writes evidence."""
import atexit
import importlib
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import types

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')

import numpy as rnp
import poly
import sym
import explore
import solver as slv
import harness
import loader
import translate
from explore import Params, PathCtx
from harness import Sym, Real, Skip, Stop
from sym import PathEnd, Unsupported, Inconclusive, S, Ite, SymBool, f_eval, lift

rnp.seterr(all='ignore')
sys.setrecursionlimit(20000)


class Case(object):
    def __init__(self, name, fn, bound='', params=None, tiers=('quick', 'thorough'), lemmas=(), **kw):
        self.name = name
        self.lemmas = lemmas
        self.fn = fn
        self.kw = kw
        self.bound = bound
        self.params = params or Params()
        self.tiers = tiers


class Timeout(BaseException):
    pass


def _alarm(sig, frm):
    raise Timeout()


def realtime(seconds):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)


def run_real(case, point, choices, pkgdir, limit=10):
    """Run the harness on the real code.  Returns (Real, exception or None, 'skip' flag)."""
    h = Real(point, choices, pkgdir)
    harness.CURRENT[0] = h
    exc, status = None, 'ok'
    realtime(limit)
    try:
        case.fn(h, **case.kw)
    except Skip:
        status = 'skip'
    except Stop:
        pass
    except Timeout:
        status, exc = 'timeout', Timeout('no result in %ss' % limit)
    except Exception as e:
        status, exc = 'exception', e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        harness.CURRENT[0] = None
    return h, exc, status


def exact_value(x, i):
    "numeric value of a symbolic result at sample point i"
    if isinstance(x, S):
        if x.special:
            return {'nan': float('nan'), 'inf': float('inf'), '-inf': -float('inf')}[x.special]
        re = x.re.vals()[i]
        if x.im is not None:
            return complex(re, x.im.vals()[i])
        return re
    if isinstance(x, SymBool):
        return f_eval(x.f, i)
    if isinstance(x, Ite):
        for f, v in x.alts:
            if f_eval(f, i):
                return v
        return None
    return x


def crossvalidate(case, ctx, h, pkgdir, stats):
    if not ctx.alive:
        return
    # values of extreme magnitude say nothing about rounded arithmetic
    for i in ctx.alive:
        pt = ctx.point_from_sample(i)
        if all(v == 0 or 1e-5 < abs(v) < 1e5 for v in pt.values() if isinstance(v, (int, float))):
            break
    else:
        stats['cross_skipped'] = stats.get('cross_skipped', 0) + 1
        return
    r, exc, status = run_real(case, pt, ctx.choices, pkgdir)
    stats['cross_runs'] = stats.get('cross_runs', 0) + 1
    bad = None
    if status != 'ok':
        bad = status + ' ' + repr(exc)
    else:
        n = min(len(r.record), len(h.record))
        if len(r.record) != len(h.record):
            bad = 'different number of observations (%d, %d)' % (len(h.record), len(r.record))
        for (l1, v1), (l2, v2) in zip(h.record, r.record):
            if bad:
                break
            if l1 != l2 or len(v1) != len(v2):
                bad = 'observation %s vs %s' % (l1, l2)
                break
            for x, y in zip(v1, v2):
                x = exact_value(x, i)
                stats['cross_values'] = stats.get('cross_values', 0) + 1
                try:
                    cx, cy = complex(x), complex(y)
                    ok = (cx != cx and cy != cy) or cx == cy or abs(cx - cy) <= 1e-5 * (abs(cx) + abs(cy)) + 1e-6
                except (TypeError, ValueError):
                    ok = x == y
                if not ok:
                    bad = '%s: encoded %r, real %r' % (l1, x, y)
                    break
    if bad:
        stats['cross_diverged'] = stats.get('cross_diverged', 0) + 1
        d = stats.setdefault('divergences', [])
        if len(d) < 6:
            d.append('%s: %s' % (case.name, bad))
    else:
        stats['cross_agreed'] = stats.get('cross_agreed', 0) + 1


def only_rounding(case, pt, choices, ldr, seed):
    """Whether the same inputs meet every claim when the code runs on them in exact arithmetic.
    False where that cannot be told."""
    q = explore.exact_point(pt)
    if q is None:
        return False
    saved = poly.SP, sym.CTX
    sol = slv.Solver()
    p = Params()
    p.__dict__.update(case.params.__dict__)
    ctx = explore.Pinned(case.name, sol, p, time.time() + 8.0, seed, q, choices)
    h = Sym(ctx, ldr)
    realtime(10.0)
    try:
        case.fn(h, **case.kw)
    except (Stop, PathEnd):
        pass
    except (Exception, Unsupported, Inconclusive, poly.Budget, Timeout):
        return False
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sol.close()
        poly.set_space(saved[0])
        sym.set_ctx(saved[1])
    return not (ctx.failures or ctx.alternatives or ctx.stats.get('inconclusive'))


def judge(case, label, cands, choices, pkgdir, ldr=None, seed=1, stats=None):
    "Replay candidate points on the real code; the first that violates, or None."
    for pt in cands:
        r, exc, status = run_real(case, pt, choices, pkgdir)
        if status == 'skip':
            continue
        if (r.failed or status != 'ok') and ldr is not None and only_rounding(case, pt, choices, ldr, seed):
            stats['rounding_only'] = stats.get('rounding_only', 0) + 1
            continue
        if status == 'exception' or status == 'timeout':
            return pt, 'the call does not return: %s: %s' % (type(exc).__name__, exc), label
        if r.failed:
            for l, why in r.failed:
                if l == label or label.startswith(l):
                    return pt, why, l
            return pt, r.failed[0][1], r.failed[0][0]
    return None


def explore_case(args):
    case, pkgdir, seed, ldr, deadline = args
    t0 = time.time()
    P = case.params
    stats = {'case': case.name, 'bound': case.bound}
    violations, unrep = [], []
    used = []
    for key, fn in case.lemmas:
        if key not in harness.PROVED:
            harness.PROVED[key] = lemma(key, fn, args)
        used.append('%s %s: %s' % ((key,) + harness.PROVED[key]))
    if used:
        stats['lemmas'] = used
    sol = slv.Solver()
    work, later = [([], [])], []
    paths = 0
    end = min(t0 + P.budget_s, deadline)
    crossed = 0
    skipped = 0
    seen_labels = set()
    reached = 0
    while work or later:
        if paths >= P.max_paths or time.time() > end:
            skipped = len(work) + len(later)
            break
        # mixed order: deep alternatives first, then shallow ones, in turn
        # paths without a known witness last
        q = work or later
        prefix, extra = q.pop() if paths % 2 == 0 else q.pop(0)
        ctx = PathCtx(case.name, prefix, sol, P, stats, end, seed, extra)
        h = Sym(ctx, ldr)
        why = 'done'
        exc = None
        realtime(max(1.0, end - time.time() + 5.0))
        try:
            case.fn(h, **case.kw)
        except Stop:
            why = 'stop'
        except PathEnd as e:
            why = 'cut'
        except Inconclusive as e:
            why = 'inconclusive'
            ctx.inconclusive(str(e), 'path abandoned')
        except Unsupported as e:
            why = 'inconclusive'
            ctx.inconclusive('unsupported: %s' % e, 'path abandoned')
            if explore.DEBUG:
                traceback.print_exc()
        except poly.Budget as e:
            why = 'inconclusive'
            ctx.inconclusive(str(e), 'path abandoned')
        except Timeout:
            why = 'inconclusive'
            ctx.inconclusive('time', 'path abandoned')
        except RecursionError as e:
            why = 'inconclusive'
            ctx.inconclusive('recursion', 'path abandoned')
        except Exception as e:
            why = 'exception'
            exc = e
            exc_tb = traceback.extract_tb(e.__traceback__)
            if explore.DEBUG:
                traceback.print_exc()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        paths += 1
        stats['path_' + why] = stats.get('path_' + why, 0) + 1
        for pre, ex, known in reversed(ctx.alternatives):
            (work if known else later).append((pre, ex))
        stats['decisions'] = stats.get('decisions', 0) + max(0, len(ctx.trace) - len(prefix))
        try:
            if why == 'exception':
                stats['obligations'] = stats.get('obligations', 0) + 1
                lab = 'returns without an exception'
                w = ctx.witness()
                where = ' at %s:%s' % (os.path.basename(exc_tb[-1].filename), exc_tb[-1].name)
                if w is None:
                    ctx.inconclusive('exception %s: %s%s' % (type(exc).__name__, exc, where), 'no witness found')
                else:
                    stats['refuted'] = stats.get('refuted', 0) + 1
                    j = judge(case, lab, [w[0]], ctx.choices, pkgdir, ldr, seed, stats)
                    rec = dict(case=case.name, label=lab, why='%s: %s%s' % (type(exc).__name__, exc, where),
                               point=w[0], choices=ctx.choices, by='path condition ' + w[1])
                    if j:
                        rec.update(point=j[0], observed=j[1], label=j[2])
                        violations.append(rec)
                    else:
                        unrep.append(rec)
            for label, how, cands, desc in ctx.failures:
                if label in seen_labels and len(violations) >= 3:
                    continue
                seen_labels.add(label)
                j = judge(case, label, cands, ctx.choices, pkgdir, ldr, seed, stats)
                rec = dict(case=case.name, label=label, why=desc, by=how, choices=ctx.choices)
                if j:
                    rec.update(point=j[0], observed=j[1], label=j[2])
                    violations.append(rec)
                else:
                    rec.update(point=cands[0] if cands else None)
                    unrep.append(rec)
            if why in ('done', 'stop') and crossed < P.crosscheck and ctx.alive and not ctx.failures:
                crossed += 1
                crossvalidate(case, ctx, h, pkgdir, stats)
        except Timeout:
            pass
        if len(violations) >= 4:
            skipped = len(work) + len(later)
            stats['unexplored_unwitnessed'] = len(later)
            break
    sol.close()
    stats['paths'] = paths
    stats['unexplored'] = skipped
    stats['queries'] = sol.queries
    stats['solver_s'] = round(sol.time, 3)
    stats['verdicts'] = dict(sol.by)
    stats['wall_s'] = round(time.time() - t0, 3)
    return stats, violations, unrep


def lemma(key, fn, args):
    """A statement about a helper of the code under test, proved for all its arguments, that lets
    other cases replace calls of the helper by what it is proved to return.  Where the proof does
    not go through nothing is replaced (and nothing is reported: the cases judge)."""
    c = Case(key, fn, params=Params(budget_s=10, crosscheck=0))
    st, bad, unrep = explore_case((c,) + tuple(args[1:4]) + (time.time() + 12,))
    ok = (not bad and not unrep and not st.get('inconclusive') and not st.get('unexplored')
          and st.get('obligations', 0) > 0 and not st.get('path_exception'))
    return ok, '%d/%d obligations, %d queries' % (st.get('discharged', 0), st.get('obligations', 0), st['queries'])


def profile_functions(ldr, root):
    "Records which functions of the code under test are executed symbolically."
    seen = set()

    def prof(frame, event, arg):
        if event == 'call':
            fn = frame.f_code.co_filename
            if fn.startswith(root):
                seen.add('%s:%s' % (os.path.relpath(fn, root), frame.f_code.co_name))
    return seen, prof


def case_worker(args):
    case, pkgdir, seed, ldr, deadline = args
    try:
        if os.environ.get('VERIF_NOPROF'):
            return explore_case(args)
        seen, prof = profile_functions(ldr, ldr.root)
        # one cheap symbolic run under the profiler, for the list of functions encoded
        r = explore_case(args)
        r[0]['functions'] = sorted(first_path_functions(case, seed, ldr))
        return r
    except BaseException as e:
        return ({'case': case.name, 'error': traceback.format_exc()}, [], [])


def first_path_functions(case, seed, ldr):
    sol = slv.Solver()
    st = {}
    p = Params()
    p.__dict__.update(case.params.__dict__)
    seen, prof = profile_functions(ldr, ldr.root)
    ctx = PathCtx(case.name, [], sol, p, st, time.time() + 1.5, seed)
    ctx.prove = lambda *a, **k: True
    ctx.prove_equal = lambda *a, **k: True
    h = Sym(ctx, ldr)
    realtime(2.0)
    sys.setprofile(prof)
    try:
        case.fn(h, **case.kw)
    except (Exception, PathEnd, Inconclusive, Stop, Timeout):
        pass
    finally:
        sys.setprofile(None)
        signal.setitimer(signal.ITIMER_REAL, 0)
        sol.close()
    return seen


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


JOBS = {}


def _run(i):
    return case_worker(JOBS['args'][i])


def run_cases(cases, pkgdir, seed, ldr, total_s, nproc=None):
    nproc = nproc or int(os.environ.get('VERIF_JOBS', '8'))
    deadline = time.time() + total_s
    args = [(c, pkgdir, seed, ldr, deadline) for c in cases]
    order = sorted(range(len(cases)), key=lambda i: -cases[i].params.budget_s)
    if nproc == 1 or len(cases) == 1:
        return [case_worker(a) for a in args]
    JOBS['args'] = args
    mp = multiprocessing.get_context('fork')
    out = [None] * len(cases)
    with mp.Pool(min(nproc, len(cases)), initializer=_init) as pool:
        res = [(i, pool.apply_async(_run, (i,))) for i in order]
        for i, r in res:
            try:
                out[i] = r.get(max(5.0, deadline - time.time() + 40.0))
            except multiprocessing.TimeoutError:
                out[i] = ({'case': cases[i].name, 'error': 'worker did not finish'}, [], [])
        pool.terminate()
    return out


def prepare():
    "Translate the current sources; returns (directory, errors)."
    d = tempfile.mkdtemp(prefix='pykv_')
    atexit.register(shutil.rmtree, d, True)
    src = os.path.join(d, 'src')
    os.makedirs(src)
    errors = translate.translate(REPO, src)
    return src, errors
