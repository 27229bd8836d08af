#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json')); by = m.get('caught_by', m['property'])
    rows.append(f"| {i} | {by} | {m['what_it_breaks']} |")
t = open(V + '/DESIGN.md').read()
new = '<!-- seeds -->\n| planted bug | caught by | what it breaks |\n|---|---|---|\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
t = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: new, t, flags=re.S)
open(V + '/DESIGN.md', 'w').write(t)
