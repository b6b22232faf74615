#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the two tables below."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(V, 'manifest_table.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        t, note = CLAIMED[i]
        checks.append(dict(property=i, quick_cmd=f'./check.sh {i}', thorough_cmd=f'./check.sh {i}', technique=t, level='other', level_note=note))
    else:
        na.append(dict(property=i, reason=NA[i]))
m = dict(version=1, setup_cmd='./check.sh build', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
