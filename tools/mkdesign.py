#!/usr/bin/python3
"""Puts the table of planted bugs into DESIGN.md (between its markers)."""
import glob
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(VERIF + '/seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    rows.append('| %s | %s | %s: %s |' % (m['property'], os.path.basename(d[:-1]), m['needs'], m['what_it_breaks']))
rows.sort()
table = '<!-- seeded -->\n| caught by | bug | needs: breaks |\n|---|---|---|\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
fn = VERIF + '/DESIGN.md'
s = open(fn).read()
if 'SEEDTABLE' in s:
    s = s.replace('SEEDTABLE', table)
else:
    s = re.sub('<!-- seeded -->.*<!-- /seeded -->', lambda m: table, s, flags=re.S)
open(fn, 'w').write(s)
