#!/usr/bin/env python3
"""Brings the counts and the table of planted bugs in DESIGN.md up to date."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
rows = {}
for b in sorted(os.listdir(V + '/seeded')):
    with open(V + '/seeded/%s/meta.json' % b) as f:
        rows.setdefault(json.load(f)['property'], []).append(b)
t = '| caught by | changes |\n|---|---|\n' + ''.join('| %s | %s |\n' % (q, ', '.join(rows[q])) for q in sorted(rows))
s = re.sub(r'\| caught by \| changes \|\n(\|.*\n)+', lambda m: t, s)
s = re.sub(r'holds \d+ changes', 'holds %d changes' % sum(map(len, rows.values())), s)
n = sum(1 for x in open(V + '/known-findings.txt') if x.startswith('fixed:'))
s = re.sub(r'lists \d+ defects', 'lists %d defects' % n, s)
with open(p, 'w') as f:
    f.write(s)
