#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the table below"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
TECH = {}
NOTE = {}
exec(open(H + '/tools/levels.py').read())
checks = []; na = []
for p in props:
    i = p['id']
    if i in NA: na.append(dict(property=i, reason=NA[i])); continue
    checks.append(dict(property=i, quick_cmd='python3-vt -m nnv.check %s --tier quick' % i, thorough_cmd='python3-vt -m nnv.check %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=TECH.get(i, TECHD), level=LEVEL.get(i, 'proof'), level_note=NOTE.get(i, NOTED)))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na, notes=NOTES), open(H + '/MANIFEST.json', 'w'), indent=1)
