#!/usr/bin/env python3
"""Writes MANIFEST.json from sa/props.py and properties.jsonl."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
from props import PROPS, NA
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []; na = []
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 sa/check.py %s quick' % i, 'thorough_cmd': 'python3 sa/check.py %s thorough' % i,
                       'technique': P['technique'], 'level': P.get('level', 'other'), 'level_note': P.get('note', 'Static analysis of the current sources; nothing from /repo is executed to reach the verdict. ' + P['rule'])})
    else: na.append({'property': i, 'reason': NA.get(i, 'not built yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
