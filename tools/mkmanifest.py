#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 -m py_compile check.py checks.py', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        e = {'property': i, 'technique': c['technique'], 'level': 'exploration', 'level_note': c['note'], 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i}
        m['checks'].append(e)
    else:
        m['not_applicable'].append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'check under construction')})
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema; jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError: pass
