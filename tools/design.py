#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## Planted bugs'
caught = json.load(open(V + '/tools/caught.json'))
s = open(V + '/DESIGN.md').read()
if MARK in s:
    s = s[:s.index(MARK)]
s = s.rstrip('\n') + '\n\n' + MARK + '\n\n'
s += 'Each is `seeded/<id>/`; "caught by" lists the checks that report it (all checks of the touched package were tried when it was planted).\n\n'
s += '| id | property | caught by | what it breaks |\n|---|---|---|---|\n'
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/' + d + '/meta.json'))
    s += '| %s | %s | %s | %s |\n' % (d, m['property'], ', '.join(caught.get(d, [])) or 'nothing', m['what_it_breaks'].replace('|', '/'))
open(V + '/DESIGN.md', 'w').write(s)
