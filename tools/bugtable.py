#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (not used by any check)."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (R, d)))
    rows.append('| %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/')))
t = open(R + '/DESIGN.md').read()
h = '| bug | property | needs |\n|---|---|---|\n'
i = t.index(h) + len(h)
j = i
while t[j:j + 1] == '|':
    j = t.index('\n', j) + 1 if '\n' in t[j:] else len(t)
open(R + '/DESIGN.md', 'w').write(t[:i] + '\n'.join(rows) + '\n' + t[j:])
