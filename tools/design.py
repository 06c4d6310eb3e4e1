#!/usr/bin/env python3
"""Regenerates the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | property | what it breaks | needs | by |', '|---|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(H, 'seeded'))):
    f = os.path.join(H, 'seeded', d, 'meta.json')
    if os.path.exists(f):
        m = json.load(open(f))
        rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
p = os.path.join(H, 'DESIGN.md')
s = open(p).read()
t = '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
s = s.replace('@@SEEDED@@', t) if '@@SEEDED@@' in s else re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: t, s, flags = re.S)
open(p, 'w').write(s)
