#!/usr/bin/env python3
"""Rewrites section 8 of DESIGN.md (the table of planted bugs) from seeded/*/meta.json."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(p))
    rows.append((m['property'], os.path.basename(os.path.dirname(p)), m['what_it_breaks'], m['needs']))
rows.sort()
f = root + '/DESIGN.md'
s = open(f).read().split('\n## 8 ')[0].rstrip('\n')
t = ['', '', '## 8 Table of planted bugs', '', 'Each is caught by the quick check of its property.', '',
     '| property | seeded/ | what it breaks | what it needs |', '|---|---|---|---|']
t += ['| %s | %s | %s | %s |' % (a, b, c.replace('|', '/').replace('\n', ' '), d.replace('|', '/').replace('\n', ' ')) for a, b, c, d in rows]
open(f, 'w').write(s + '\n'.join(t) + '\n')
