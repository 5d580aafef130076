#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and the checks."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from checks import CHECKS  # noqa: E402

checks, missing = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    if p['id'] not in CHECKS:
        missing.append({'property': p['id'], 'reason': 'check not built yet'})
        continue
    c = CHECKS[p['id']]
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 run.py %s quick' % p['id'],
        'thorough_cmd': 'python3 run.py %s thorough' % p['id'],
        'technique': c['technique'],
        'level': c.get('level', 'exploration'),
        'level_note': c['level_note'],
    })
m = {'version': 1, 'setup_cmd': 'python3 tools/setup_check.py', 'checks': checks,
     'not_applicable': missing,
     'notes': 'No hooks: the headers are exercised through their public interface. Every '
              'check compiles its harnesses from the current /repo into /verif/.build and '
              'removes them again. VP_REPO selects another tree for development.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
