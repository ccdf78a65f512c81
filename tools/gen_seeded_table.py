#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(f'{root}/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['needs']} | {m['property']} |")
t = '| change | needs | caught by |\n|---|---|---|\n' + '\n'.join(rows)
p = f'{root}/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- seeded table[^\n]*-->\n).*?(\n<!-- end -->)', lambda m: m[1] + t + m[2], s, flags=re.S)
open(p, 'w').write(s)
