#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/seed_results.json."""
import json, os
r = json.load(open('/verif/tools/seed_results.json'))
rows = ['| bug | breaks | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir('/verif/seeded')):
    m = json.load(open(f'/verif/seeded/{d}/meta.json'))
    c = r.get(d, {}).get('caught_by') or []
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {', '.join(c) if c else '-'} |")
p = '/verif/DESIGN.md'
s = open(p).read()
head = s.split('### Table of the planted bugs')[0]
open(p, 'w').write(head + '### Table of the planted bugs\n' + '\n'.join(rows) + '\n')
