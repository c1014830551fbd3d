#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json and tools/caught.txt (written by hand from sweep.sh)."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | property | needs | caught by |', '|-----|----------|-------|-----------|']
notes = {}
p = os.path.join(H, 'tools', 'caught.txt')
if os.path.exists(p):
    for l in open(p):
        k, _, v = l.strip().partition(' ')
        notes[k] = v
for d in sorted(os.listdir(os.path.join(H, 'seeded'))):
    m = json.load(open(os.path.join(H, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], notes.get(d, '?')))
f = os.path.join(H, 'DESIGN.md')
s = open(f).read()
t = '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- end -->'
if '@@TABLE@@' in s:
    s = s.replace('@@TABLE@@', t)
else:
    s = re.sub(r'<!-- table -->.*?<!-- end -->', lambda _: t, s, flags=re.S)
open(f, 'w').write(s)
