#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the property list and the claims below"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
exec(open(ROOT + '/tools/claims.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        checks.append({
            'property': i,
            'quick_cmd': './check %s quick' % i,
            'thorough_cmd': './check %s thorough' % i,
            'technique': 'contract-based deductive verification: VCs generated from the compiled C of /repo (rvc) and discharged by z3',
            'level': CLAIMS[i].get('level', 'proof'),
            'level_note': CLAIMS[i]['note'],
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh',
     'hooks': {'guard': 'none', 'enable': 'no hooks: the checks read the unmodified sources', 'source_commits': []},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
