#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(HERE, 'tools', 'claims.py')).read())
rules = [p for p in CLAIMS if os.path.exists(os.path.join(HERE, 'lib', 'rules', p.lower() + '.py'))]
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in rules:
        t, n = CLAIMS[i]
        m['checks'].append({'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': './check ' + i, 'technique': t, 'level': 'other', 'level_note': ' '.join(n.split())})
    else:
        m['not_applicable'].append({'property': i, 'reason': NOT.get(i, 'no check built yet')})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not applicable')
