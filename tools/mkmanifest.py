#!/usr/bin/env python3
"""MANIFEST.json from the checks present"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, 'tools/levels.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    s = 'checks/%s.py' % p.lower()
    if p in LEVELS and os.path.exists(os.path.join(V, s)):
        lv, tech, note = LEVELS[p]
        checks.append(dict(property=p, quick_cmd='python3-vt %s' % s, thorough_cmd='VERIF_TIER=thorough python3-vt %s' % s, technique=tech, level=lv, level_note=note))
    else: na.append(dict(property=p, reason=NA.get(p, 'not built yet')))
json.dump(dict(version=1, setup_cmd='python3-vt checks/setup.py', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
