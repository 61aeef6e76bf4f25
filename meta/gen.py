#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in this directory."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from table import PROPS, NOT_APPLICABLE

PY = '/opt/venv/bin/python check.py'


def main():
    top = os.path.dirname(HERE)
    with open(os.path.join(top, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['quant']),
                     why_tests_cant=p['why'],
                     anchors=dict(files=p['files'],
                                  mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
            f.write(json.dumps(d) + '\n')
    na = dict(NOT_APPLICABLE)
    checks = []
    for p in PROPS:
        if p['id'] in na:
            continue
        checks.append(dict(
            property=p['id'],
            quick_cmd='%s %s --tier quick' % (PY, p['id']),
            thorough_cmd='%s %s --tier thorough' % (PY, p['id']),
            evidence_file='evidence/%s.json' % p['id'],
            technique='symbolic execution of the real source + SMT (z3), counterexamples replayed on the built package',
            level='other',
            level_note=p.get('note') or (
                'Every path of the encoded functions within the stated bounds is explored and each obligation is '
                'decided by normal form or solver for all real inputs on that path. Trusts: the symbolic numpy '
                'stand-in (cross-validated against the built package on each run), exact real arithmetic in place of '
                'floating point, z3.')))
    json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy"', checks=checks,
                   not_applicable=[dict(property=a, reason=b) for a, b in NOT_APPLICABLE],
                   notes='See DESIGN.md. No hooks in /repo.'),
              open(os.path.join(top, 'MANIFEST.json'), 'w'), indent=1)
    import jsonschema
    for line in open(os.path.join(top, 'properties.jsonl')):
        jsonschema.validate(json.loads(line), json.load(open('/root/.vp/PROPERTIES.schema.json')))
    jsonschema.validate(json.load(open(os.path.join(top, 'MANIFEST.json'))),
                        json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('%d properties, %d checks' % (len(PROPS), len(checks)))


main()
