#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = ('Generated-input search only: no violation among the cases explored, for the seed given; nothing is shown about '
        'inputs outside the generator. Trusts clang 18, its sanitizers and the oracle in the harness named in DESIGN.md.')
m = {'version': 1,
     'setup_cmd': 'python3 check.py --selftest',
     'checks': [], 'not_applicable': []}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m['checks'].append({'property': p,
                            'quick_cmd': 'python3 check.py %s --tier quick' % p,
                            'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                            'evidence_file': 'evidence/%s.json' % p,
                            'technique': c.get('technique', 'property-based testing'),
                            'level': 'exploration',
                            'level_note': (c.get('note', '') + ' ' + NOTE).strip()})
    else:
        m['not_applicable'].append({'property': p, 'reason': 'check not built yet'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
