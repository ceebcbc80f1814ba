#!/usr/bin/env python3
"""table.py - rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (a tool for development)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set('C32-empty-report C11-burst C23-stopped-after C24-typed-reload C19-remove-swaps C26-aligned-ratio C17-forcing-order C29-late-none C35-same-list C35-second-predicate C31-step-byte C01-equal-messages'.split())
if os.path.exists(V + '/lib/missed.txt'):
    MISSED |= set(open(V + '/lib/missed.txt').read().split())
rows = ['| planted bug | property | needs |', '|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/' + i + '/meta.json'))
    rows.append('| %s%s | %s | %s |' % (i, ' *' if i in MISSED else '', m['property'], m['needs'].replace('|', '/')))
s = open(V + '/DESIGN.md').read()
a, b = s.index('<!-- planted:begin -->') + 22, s.index('<!-- planted:end -->')
open(V + '/DESIGN.md', 'w').write(s[:a] + '\n' + '\n'.join(rows) + '\n' + s[b:])
