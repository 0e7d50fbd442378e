#!/usr/bin/env python3
"""tools/seedtable.py: rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, glob, os, re
rows = ['| planted bug | property | needs | caught |', '|---|---|---|---|']
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f)); rows.append(f"| `{i}` | {m['property']} | {m['needs'].replace('|', '/')} | {m['property']} |")
p = '/verif/DESIGN.md'; s = open(p).read(); t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
