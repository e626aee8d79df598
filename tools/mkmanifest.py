#!/usr/bin/env python3
"""writes MANIFEST.json from the table of claimed checks"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)
props = [json.loads(l) for l in open('properties.jsonl')]
ns = {}
exec(open('tools/claims.py').read(), ns)
checks = []; na = []
for p in props:
    i = p['id']
    if i in ns['CLAIMS']:
        tech, note = ns['CLAIMS'][i]
        checks.append({'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + i, 'technique': tech, 'level': 'other', 'level_note': note})
    else: na.append({'property': i, 'reason': ns['NA'].get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}, open('MANIFEST.json', 'w'), indent=1)
