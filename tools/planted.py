#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os, re, collections
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
t = collections.defaultdict(list)
for m in sorted(glob.glob('seeded/*/meta.json')):
    t[json.load(open(m))['property']].append(m.split('/')[1])
n = sum(map(len, t.values()))
rows = ''.join(f'| {p} | {", ".join(t[p])} |\n' for p in sorted(t))
s = open('DESIGN.md').read()
s = re.sub(r'\d+ bugs in `seeded/`', f'{n} bugs in `seeded/`', s)
s = re.sub(r'(\| property \| caught by its check \|\n\|-+\|-+\|\n)(\|.*\n)*', lambda m: m[1] + rows, s)
open('DESIGN.md', 'w').write(s)
