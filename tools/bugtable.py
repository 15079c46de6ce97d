#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json
and tools/missed.json (what a bug's first run taught)."""
import json, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = json.load(open(f'{R}/tools/missed.json'))
rows = ['| bug | caught by | needs | first run |', '|---|---|---|---|']
for d in sorted(glob.glob(f'{R}/seeded/*/meta.json')):
    m = json.load(open(d)); i = d.split('/')[-2]
    rows.append(f"| {i} | {m['property']} | {m['needs'].split(', for')[0]} | {missed.get(i, 'caught')} |")
s = open(f'{R}/DESIGN.md').read()
mark = '<!-- bugs -->\n'
open(f'{R}/DESIGN.md', 'w').write(s[:s.index(mark) + len(mark)] + '\n'.join(rows) + '\n')
