#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from props import PROPERTIES, NOT_APPLICABLE  # noqa

with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in PROPERTIES + NOT_APPLICABLE:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'python3-vt check.py --selftest', 'checks': [], 'not_applicable': [],
     'notes': 'All checks are static analyses of the Python (and C) sources under /repo/src/wafo; nothing of the package is imported or run.'}
for p in PROPERTIES:
    m['checks'].append({'property': p['id'], 'quick_cmd': 'python3-vt check.py ' + p['id'],
                        'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + p['id'],
                        'technique': p['technique'], 'level': 'other', 'level_note': p['level_note']})
for p in NOT_APPLICABLE:
    m['not_applicable'].append({'property': p['id'], 'reason': p['reason']})
with open(os.path.join(H, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
