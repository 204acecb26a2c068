#!/usr/bin/env python3
"""Regenerate MANIFEST.json from checks/table.py and properties.jsonl (development helper)."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from checks import table
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 setup_check.py', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in table.CHECKS:
        t = table.CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i,
                            'thorough_cmd': 'python3 check.py %s --thorough' % i,
                            'technique': 'static analysis: ' + t[2], 'level': 'other',
                            'level_note': t[3] + ' ' + (t[4] if len(t) > 4 else table.NOTE)})
    else:
        m['not_applicable'].append({'property': i, 'reason': table.NA.get(i, 'no check built yet')})
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
