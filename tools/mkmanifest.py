#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p['id'])
    if not c:
        na.append(dict(property=p['id'], reason='check under construction'))
        continue
    checks.append(dict(
        property=p['id'],
        quick_cmd='python3 run.py ' + p['id'],
        thorough_cmd='VERIF_TIER=thorough python3 run.py ' + p['id'],
        evidence_file='evidence/%s.json' % p['id'],
        technique=c.get('technique', 'property-based testing (rapid): generated inputs against an explicit oracle, with shrinking'),
        level='exploration',
        level_note=c.get('note', 'Holds on every generated case; bounded by the generators described in DESIGN.md. ' +
                         ('Trusts: ' + '; '.join(c['assumptions']) + '.' if c.get('assumptions') else 'Trusts the reference model in harness/.'))))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: everything is checked through the public API. run.py builds the harness against /repo\'s working tree on every run.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
