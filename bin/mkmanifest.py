#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan; properties without a plan are listed as not (yet) claimed."""
import os, sys, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
from plan import PLAN, EXTRA
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NOTE = ("Bounded by the cases of the run: TLC interprets the TLA+ specification on every generated grammar, option set and stream and the output of the real "
        "binaries must be the specified one. Trusts the specification, TLC and the case builder.")
checks = []; na = []
for p in props:
    if p['id'] in PLAN:
        checks.append(dict(property=p['id'], quick_cmd='python3 bin/check.py %s --tier quick' % p['id'],
                           thorough_cmd='python3 bin/check.py %s --tier thorough' % p['id'],
                           technique='TLA+ specification checked with TLC; conformance of recorded outputs to the specified behaviour',
                           level='model_checking', level_note=NOTE, evidence_file='evidence/%s.json' % p['id']))
    else:
        na.append(dict(property=p['id'], reason='not claimed yet: the specification covers it only in part and no check is registered'))
json.dump(dict(version=1, setup_cmd='python3 bin/build.py', checks=checks, not_applicable=na,
               notes='No hooks: everything is observed through the command-line tools built from /repo by bin/build.py.'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
