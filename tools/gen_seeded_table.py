#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md (documentation only; no check uses it)."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(R, 'tools', 'caught.json')))  # id -> sub-check that reported it ('' = missed)
rows = ['| change | check that reports it | needs | what it breaks |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(R, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    c = caught.get(i, '')
    rows.append('| %s | %s | %s | %s |' % (i, '%s (%s)' % (m['property'], c) if c else m['property'] + ' **missed**', m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
p = os.path.join(R, 'DESIGN.md')
s = open(p).read()
head = s.split('<!-- seeded -->')[0]
open(p, 'w').write(head + '<!-- seeded -->\n' + '\n'.join(rows) + '\n')
