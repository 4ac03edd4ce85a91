#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property texts below (tools/props.py)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'tools'))
from props import PROPS, NOT_APPLICABLE, NOTES

with open(os.path.join(here, 'properties.jsonl'), 'w') as o:
    for p in PROPS + NOT_APPLICABLE:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], state=[dict(name=n, meaning=m, where=w) for n, m, w in p.get('state', [])],
                              mechanism=[dict(name=n, where=w) for n, w in p.get('mech', [])],
                              observe_at=p.get('observe', []), hook_needed=None))
        assert len(d['title']) <= 80, d['title']
        o.write(json.dumps(d) + '\n')
man = dict(version=1, setup_cmd='./check --build', checks=[], not_applicable=[], notes=NOTES)
for p in PROPS:
    man['checks'].append(dict(property=p['id'], quick_cmd='./check %s quick' % p['id'], thorough_cmd='./check %s thorough' % p['id'],
                              technique=p['technique'], level='other', level_note=p['note']))
for p in NOT_APPLICABLE:
    man['not_applicable'].append(dict(property=p['id'], reason=p['reason']))
with open(os.path.join(here, 'MANIFEST.json'), 'w') as o:
    json.dump(man, o, indent=1)
    o.write('\n')
