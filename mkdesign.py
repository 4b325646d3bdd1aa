#!/usr/bin/env python3
"""fills DESIGN.tmpl from claims.json, properties.jsonl, known_findings.json,
seeded/*/meta.json and seeded.json (which check reported each planted bug, and how)"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
J = lambda n: json.load(open(os.path.join(H, n)))
claims, known, caught = J('claims.json'), J('known_findings.json'), J('seeded.json')
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
table = '\n'.join('| %s | %s | %s |' % (p['id'], p['title'], claims[p['id']]['note']) for p in props)
fixes = '\n'.join('* ' + k['fixed'].replace('fixed: property=', '') for k in known if 'fixed' in k)
kn = ' '.join('(%s) %s' % (k['property'], k['what']) for k in known if 'what' in k)
rows = ['| bug | property | breaks | needs | reported by |', '|---|---|---|---|---|']
for s in sorted(os.listdir(os.path.join(H, 'seeded'))):
    m = J('seeded/%s/meta.json' % s)
    rows.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), caught.get(s, 'not caught')))
t = open(os.path.join(H, 'DESIGN.tmpl')).read()
for k, v in (('TABLE', table), ('FIXES', fixes), ('KNOWN', kn), ('SEEDS', '\n'.join(rows))):
    t = t.replace('@%s@' % k, v)
open(os.path.join(H, 'DESIGN.md'), 'w').write(t)
