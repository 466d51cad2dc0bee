#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the contracts, harnesses and notes below."""
import json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'); sys.path.insert(0, HERE); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from notes import NOTES, NA
import props
checks = []
for p in props.P:
    i = p['id']
    if i in NA: continue
    if not os.path.exists(os.path.join(HERE, 'harness/h_%s.py' % i)): continue
    level, tech, note = NOTES[i]
    checks.append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='python3-vt check.py %s --thorough' % i, evidence_file='evidence/%s.json' % i,
                       technique=tech, level=level, level_note=note))
have = {c['property'] for c in checks}
na = [dict(property=p['id'], reason=NA.get(p['id'], 'no check built yet')) for p in props.P if p['id'] not in have]
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='No hooks in /repo are needed. Every check reads the function bodies from /repo when it runs.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
