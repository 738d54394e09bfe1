#!/usr/bin/env python3
"""Writes MANIFEST.json from vf/props.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'vf'))
import props as P
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
for i in ids:
    p = P.PROPS.get(i)
    if p is None:
        m['not_applicable'].append({'property': i, 'reason': P.NOT_APPLICABLE.get(i, 'not brought under contract yet')})
        continue
    c = {'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
         'technique': p.get('technique', 'contract-based deductive verification (Verus/Z3) of the functions extracted from /repo on every run; bounded contract evaluation on the compiled code supplies failing inputs'),
         'level': p['level'], 'level_note': p.get('note', '')}
    if p.get('theorems'):
        c['theorems'] = p['theorems']
    m['checks'].append(c)
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
