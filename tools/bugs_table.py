#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and
tools/caught.json (seed -> check and case that report it)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(root + '/tools/caught.json'))
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {caught.get(d, 'not run yet')} |")
s = open(root + '/DESIGN.md').read()
head = '| change | property | needs | reported by |\n|---|---|---|---|\n'
i = s.index(head) + len(head)
j = s.index('\n\n', i)
open(root + '/DESIGN.md', 'w').write(s[:i] + '\n'.join(rows) + s[j:])
