#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the plan."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = 'bounded: universes %s; TLC checks the property on every transition of the specification and every transition and refusal is executed on the real program'
checks = []
for p in props:
    i = p['id']
    if i not in PLAN: continue
    pl = PLAN[i]
    us = ', '.join(u['name'] + (' (random behaviours)' if u.get('sim') else '') for u in pl['universes'])
    checks.append({'property': i, 'quick_cmd': './check.py %s quick' % i, 'thorough_cmd': './check.py %s thorough' % i,
                   'technique': pl.get('technique', 'TLA+ specification model-checked with TLC; conformance by replaying every TLC transition and refusal into the real program, disagreements judged by TLC against the property'),
                   'level': pl.get('level', 'model_checking'), 'level_note': pl.get('note', NOTE % us)})
na = [{'property': p['id'], 'reason': 'check under construction'} for p in props if p['id'] not in PLAN]
m = {'version': 1, 'setup_cmd': 'true', 'hooks': {'guard': 'none', 'enable': 'not needed: no hooks were added to /repo'},
     'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ specification in spec/; see DESIGN.md. Checks build /repo from its working tree into /verif/target.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
