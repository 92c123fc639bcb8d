#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    j = json.load(open(m))
    cell = lambda s: s.replace('|', '\\|').replace('\n', ' ')
    rows.append(f"| {os.path.basename(os.path.dirname(m))} | {j['property']} | {cell(j['what_it_breaks'])} | {cell(j['needs'])} |")
table = '\n'.join(['| id | caught by | what it breaks | what it needs |', '|---|---|---|---|'] + rows)
p = root + '/DESIGN.md'
t = open(p).read()
a, b = t.index('<!-- seeds -->') + len('<!-- seeds -->'), t.index('<!-- end of seeds -->')
open(p, 'w').write(t[:a] + '\n' + table + '\n' + t[b:])
