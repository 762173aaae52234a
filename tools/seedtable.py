#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
rows = ['| planted bug | property | breaks | needs | caught by its quick check |', '|---|---|---|---|---|']
for d in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught', 'yes')} |")
s = open('DESIGN.md').read()
a, b = '<!-- seeds -->\n', '\n<!-- /seeds -->'
if '@@SEEDS@@' in s:
    s = s.replace('@@SEEDS@@', a + b)
i, j = s.index(a) + len(a), s.index(b)
open('DESIGN.md', 'w').write(s[:i] + '\n'.join(rows) + s[j:])
