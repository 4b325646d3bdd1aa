#!/usr/bin/env python3
"""writes MANIFEST.json from the table of claimed properties"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = 'contract-based deductive verification of the real code (VC generator over the clang AST of /repo, obligations discharged by normal forms + z3)'
COMMON = ('Every run regenerates the obligations from the current sources. Assumes: floats as reals, ints as unbounded integers except unsigned '
          'subtraction/conversion, clang AST + /verif/vcg trusted, contracts listed in the evidence as trusted_base. ')
CLAIMED = json.load(open(os.path.join(HERE, 'claims.json')))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = CLAIMED.get(p['id'])
    if c and not c.get('na'):
        checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
                       'technique': c.get('technique', T), 'level': 'proof', 'level_note': COMMON + c['note']})
    else:
        na.append({'property': p['id'], 'reason': (c or {}).get('na') or 'contracts for this property are not written yet'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
