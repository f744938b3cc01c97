#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json and tools/catches.json."""
import json, os, glob, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
catches = json.load(open(root + '/tools/catches.json'))
rows = ['<!-- TABLE -->', '', '| change | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    name = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    by = catches.get(name, [])
    rows.append('| %s | %s | %s | %s |' % (name, m['property'], m['needs'].replace('|', '/').replace('\n', ' '), ', '.join(by) or 'not caught'))
rows += ['', '<!-- END -->']
p = root + '/DESIGN.md'
t = open(p).read()
t = re.sub(r'<!-- TABLE -->.*?<!-- END -->', lambda _: '\n'.join(rows), t, flags=re.S)
open(p, 'w').write(t)
print(len(rows) - 6, 'changes')
