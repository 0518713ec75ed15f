#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py (only the ids listed in harness/registry.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools')); sys.path.insert(0, os.path.join(V, 'harness'))
from props import P, NA, NOTES
from registry import PROPS
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        if p['id'] not in PROPS and p['id'] not in NA:
            continue
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['forall']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                         'observe_at': p.get('obs', []), 'hook_needed': None}}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
checks = []
for p in P:
    if p['id'] in PROPS:
        checks.append({'property': p['id'], 'quick_cmd': 'bash check.sh %s quick' % p['id'],
                       'thorough_cmd': 'bash check.sh %s thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': p['tech'], 'level': 'model_checking', 'level_note': p['note']})
ids = {p['id'] for p in P}
assert set(PROPS) <= ids, set(PROPS) - ids
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'hooks': {'guard': 'MUSHROOM_VERIF_HOOKS', 'enable': 'no hook was needed: nothing in /repo reads this variable',
               'source_commits': []},
     'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()], 'notes': NOTES}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
