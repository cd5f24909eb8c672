#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NA, TECH
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        q = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['text']),
                 why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
        f.write(json.dumps(q) + '\n')
checks = []
for p in PROPS:
    checks.append(dict(property=p['id'], quick_cmd='python3 sa/check.py %s quick' % p['id'],
                       thorough_cmd='python3 sa/check.py %s thorough' % p['id'],
                       technique=p.get('technique', TECH), level=p.get('level', 'other'), level_note=p['note']))
man = dict(version=1, setup_cmd='python3 sa/facts.py setup', checks=checks,
           not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NA])
json.dump(man, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'claimed', len(NA), 'not applicable')
