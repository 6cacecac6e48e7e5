#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 -m bmpcheck %s --tier quick' % i,
                       'thorough_cmd': 'python3 -m bmpcheck %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': tech, 'level': 'other', 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
