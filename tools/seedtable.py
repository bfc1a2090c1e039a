#!/usr/bin/env python3
"""Developer tool: rewrites the table of planted changes at the end of DESIGN.md (what caught them: work/sweep.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + '/work/sweep.json'))
s = open(V + '/DESIGN.md').read()
mark = '## Planted changes'
s = s[:s.index(mark)] if mark in s else s + '\n'
s += mark + '\n\nEach was run against the quick check of its own property (`tools/sweep.py`).\n\n| id | needs | caught by |\n|---|---|---|\n'
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    r = res.get(i)
    by = m['property'] if isinstance(r, dict) and r['caught'] else 'MISSED' if r else 'not run'
    needs = ' '.join(str(m['needs']).split()).replace('|', '/')
    s += f'| {i} | {needs[:150]} | {by} |\n'
open(V + '/DESIGN.md', 'w').write(s)
