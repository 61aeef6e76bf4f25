#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--case SUBSTRING] [--seed N]
   check.py --replay FILE

Exit 0: the property held on everything explored.  Exit 1: violated, with a line
VIOLATION property=<id> replay=<path>.  Exit 2: the check could not decide anything."""
import argparse
import fnmatch
import glob
import hashlib
import json
import os
import sys
import time

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'engine'))
sys.path.insert(0, VERIF)
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')

import driver
import loader
import props
from driver import Case


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))


def matches(kf, pid, v):
    return (kf.get('status') == 'finding' and kf['property'] == pid
            and fnmatch.fnmatch(v['case'], kf.get('case', '*'))
            and fnmatch.fnmatch(v['label'], kf.get('label', '*'))
            and fnmatch.fnmatch(str(v.get('observed', '')), kf.get('observed', '*')))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--case')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    if a.replay:
        return replay(a.replay)
    pid = a.property
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    spec = props.PROPS[pid]
    src, errors = driver.prepare()
    if errors:
        print('cannot translate: %s' % errors)
    t_tr = time.time() - t0
    ldr = loader.Loader(src)
    cases = [c for c in spec.cases(a.tier) if a.tier in c.tiers]
    if a.case:
        cases = [c for c in cases if a.case in c.name]
    total = spec.total_s if a.tier == 'quick' else spec.thorough_s
    if a.tier == 'thorough':
        for c in cases:
            c.params = c.params.deeper(spec.thorough_scale)
    # load everything once, before the processes fork
    import poly
    poly.set_space(poly.Space())
    load_error = None
    for m in spec.modules:
        try:
            ldr.load(m)
        except Exception as e:
            load_error = '%s: %s: %s' % (m, type(e).__name__, e)
            print('import of %s fails: %s' % (m, e))
    results = driver.run_cases(cases, src, a.seed, ldr, total)
    violations, unrep, agg = [], [], {}
    functions, lists, errs, percase = set(), {}, [], []
    for (st, vs, us), c in zip(results, cases):
        if 'error' in st:
            errs.append('%s: %s' % (st['case'], st['error']))
            continue
        violations += vs
        unrep += us
        functions |= set(st.pop('functions', ()))
        for k, v in list(st.items()):
            if isinstance(v, bool):
                continue
            if isinstance(v, (int, float)):
                agg[k] = agg.get(k, 0) + v
            elif isinstance(v, list):
                lists.setdefault(k, []).extend('%s: %s' % (st['case'], x) if k != 'divergences' else x
                                               for x in v)
            elif isinstance(v, dict):
                d = agg.setdefault(k, {})
                for kk, vv in v.items():
                    d[kk] = d.get(kk, 0) + vv
        percase.append(dict((k, st.get(k, 0)) for k in
                            ('case', 'bound', 'paths', 'unexplored', 'obligations', 'discharged',
                             'inconclusive', 'queries', 'solver_s', 'wall_s')))
    known, new = [], []
    kfs = [k for k in known_findings() if k['property'] == pid and k.get('status') == 'finding']
    for v in violations:
        hit = [k for k in kfs if matches(k, pid, v)]
        (known if hit else new).append(v)
    for k in kfs:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    disch, obl = agg.get('discharged', 0), agg.get('obligations', 0)
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level='other', wall_s=round(time.time() - t0, 2),
              violations=len(new),
              coverage=dict(
                  explanation='bounded symbolic execution of the real code; each obligation is decided '
                              'for all inputs of its path and case',
                  functions_encoded=sorted(functions), cases=percase,
                  bounds=sorted(set(c.bound for c in cases if c.bound)),
                  paths=agg.get('paths', 0), decisions=agg.get('decisions', 0),
                  pruned_infeasible_branches=agg.get('pruned', 0),
                  unexplored_prefixes=agg.get('unexplored', 0),
                  obligations=obl, discharged=disch,
                  refuted=agg.get('refuted', 0), inconclusive=agg.get('inconclusive', 0),
                  settled_by=dict((k, agg.get(k, 0)) for k in
                                  ('by_normal_form', 'by_solver_alone', 'by_unfolding', 'by_evaluation')),
                  queries_by_purpose=dict((k[2:], v) for k, v in agg.items() if k.startswith('q_')),
                  queries=agg.get('queries', 0), solver_s=round(agg.get('solver_s', 0), 2),
                  verdicts=agg.get('verdicts', {}),
                  paths_by_end=dict((k[5:], v) for k, v in agg.items() if k.startswith('path_')),
                  cross_validation=dict((k, agg.get(k, 0)) for k in
                                        ('cross_runs', 'cross_values', 'cross_agreed', 'cross_diverged', 'cross_skipped')),
                  divergences=lists.get('divergences', [])[:10],
                  inconclusive_list=lists.get('inconclusive_list', [])[:60],
                  lemmas=sorted(set(x.split(': ', 1)[1] for x in lists.get('lemmas', []))),
                  unreproduced=[slim(u) for u in unrep[:20]],
                  known_findings_seen=[slim(v) for v in known[:10]],
                  vacuous_cases=[c['case'] for c in percase if not c['obligations']],
                  div0_cut=agg.get('div0_cut', 0),
                  breakdown_assumed_away=agg.get('breakdown_assumed_away', 0),
                  translation_s=round(t_tr, 2), errors=errs[:10]),
              assumptions=spec.assumptions)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d cases, %d paths (%d left), %d/%d obligations discharged, %d inconclusive, '
          '%d queries, solver %.1fs, cross-validation %d/%d, %.1fs'
          % (pid, a.tier, len(cases), agg.get('paths', 0), agg.get('unexplored', 0), disch, obl,
             agg.get('inconclusive', 0), agg.get('queries', 0), agg.get('solver_s', 0),
             agg.get('cross_agreed', 0), agg.get('cross_runs', 0), time.time() - t0))
    if a.v:
        for p in percase:
            print('    %-50s paths %d left %d obl %d/%d inc %d q %d solver %.1f wall %.1f' % (
                p['case'][:50], p['paths'], p['unexplored'], p['discharged'], p['obligations'],
                p['inconclusive'], p['queries'], p['solver_s'], p['wall_s']))
        for x in lists.get('inconclusive_list', [])[:15]:
            print('  INC', x)
        for x in lists.get('divergences', [])[:10]:
            print('  DIV', x)
    for u in unrep[:10]:
        print('note: counterexample of the encoding that the real code does not reproduce: %s'
              % json.dumps(slim(u), default=str)[:700])
    for e in errs:
        print('note: ' + e)
    if ev['coverage']['vacuous_cases']:
        print('note: nothing to decide in %d cases: %s' % (len(ev['coverage']['vacuous_cases']), ev['coverage']['vacuous_cases'][:4]))
    for v in known[:5]:
        print('known: %s / %s / %s' % (v['case'], v['label'], v.get('observed')))
    if new:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        seen = set()
        for v in new:
            key = (v['case'], v['label'])
            if key in seen or len(seen) >= 8:
                continue
            seen.add(key)
            name = '%s-%s.json' % (pid, hashlib.sha1(repr(key).encode()).hexdigest()[:10])
            path = os.path.join(VERIF, 'replay', name)
            json.dump(dict(property=pid, tier=a.tier, **v), open(path, 'w'), indent=1, default=str)
            print('  case %s: %s: %s  (encoding: %s)' % (v['case'], v['label'], v.get('observed'), v.get('why')))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if load_error and not disch:
        return 2
    if disch == 0:
        print('nothing was decided')
        return 2
    return 0


def slim(v):
    return dict((k, v.get(k)) for k in ('case', 'label', 'why', 'observed', 'point', 'choices', 'by'))


def replay(path):
    v = json.load(open(path))
    src, errors = driver.prepare()
    spec = props.PROPS[v['property']]
    for c in spec.cases(v.get('tier', 'quick')):
        if c.name == v['case']:
            r, exc, status = driver.run_real(c, v['point'], v['choices'], src, 60)
            print('property %s, case %s' % (v['property'], v['case']))
            print('inputs: %s' % json.dumps(v['point']))
            print('status: %s %s' % (status, exc if exc else ''))
            for l, why in r.failed:
                print('FAILS  %s: %s' % (l, why))
            return 1 if (r.failed or status in ('exception', 'timeout')) else 0
    print('no such case')
    return 2


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.exit(code)
