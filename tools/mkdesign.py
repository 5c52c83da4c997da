#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | needs | breaks |', '|---|---|---|---|']
for d in sorted(glob.glob(H + '/seeded/*/')):
    m = json.load(open(d + 'meta.json')); i = os.path.basename(d[:-1])
    rows.append('| %s | %s | %s | %s |' % (i, m.get('caught_by', m['property']), m['needs'].replace('|', '/').replace('\n', ' '), m['what_it_breaks'].replace('|', '/').replace('\n', ' ')))
p = H + '/DESIGN.md'; s = open(p).read()
k = s.index('@@TABLE@@') if '@@TABLE@@' in s else s.index('| planted bug |')
open(p, 'w').write(s[:k] + '\n'.join(rows) + '\n')
