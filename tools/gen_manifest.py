#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the suites that exist."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from suites import SUITES, TECH
props = [json.loads(l) for l in open(os.path.join(here, '..', 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in SUITES:
        tech, note = TECH.get(i, TECH[None])
        checks.append(dict(property=i, quick_cmd='./check.py ' + i, thorough_cmd='./check.py %s --thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=tech, level='model_checking', level_note=note))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='TLA+ specifications in spec/, checked with TLC; conformance harness in harness/ (public API only, no hooks in /repo).')
json.dump(m, open(os.path.join(here, '..', 'MANIFEST.json'), 'w'), indent=1)
