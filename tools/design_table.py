#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md (between the markers) from seeded/*/meta.json and tools/missed.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = json.load(open(f'{root}/tools/missed.json'))
rows = []
for d in sorted(os.listdir(f'{root}/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    x = missed.get(d, {})
    caught = ', '.join([m['property']] + x.get('also', [])) if x.get('caught', True) else 'not caught'
    rows.append(f"| {d} | {caught} | {x.get('note', '')} |")
p = f'{root}/DESIGN.md'
t = open(p).read()
t = re.sub(r'(<!-- table -->\n).*?(<!-- end -->)',
           lambda _: '<!-- table -->\n| bug | caught by | notes |\n|----|----|----|\n' + '\n'.join(rows) + '\n<!-- end -->', t, flags=re.S)
open(p, 'w').write(t)
