#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from design.in.md, checks/props.py and seeded/."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/checks')
from props import PROPS, NOT_APPLICABLE
rows = []
for i, c in sorted(PROPS.items()):
    u = ', '.join(c.get('units', []) + [k + ' (Kani)' for k in c.get('kani', [])]) or '–'
    rows.append('| %s %s | %s | %s | %s | %s: %s |' % (i, c['title'], c['level'], u, c['note'], ', '.join(c['harness']), c['bounded']))
seeds = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    seeds.append('* `%s` (%s): %s; needs %s.' % (d, m['property'], m['what_it_breaks'].rstrip('.'), m['needs'].rstrip('.')))
na = ['* %s: %s' % (i, r) for i, r in sorted(NOT_APPLICABLE.items())] or ['(none)']
s = open(V + '/tools/design.in.md').read()
for k, v in (('%TABLE%', rows), ('%SEEDS%', seeds), ('%NA%', na)):
    s = s.replace(k, '\n'.join(v))
open(V + '/DESIGN.md', 'w').write(s)
