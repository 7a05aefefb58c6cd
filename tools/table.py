"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (all of them were seen caught by plant.py)."""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    m = json.load(open(p))
    rows.append((m['property'], os.path.basename(os.path.dirname(p)), m['needs']))
rows.sort()
text = '| check | planted bug | shows itself with |\n|---|---|---|\n' + ''.join('| %s | %s | %s |\n' % r for r in rows)
d = open(ROOT + '/DESIGN.md').read()
d = re.sub(r'<!-- table -->.*<!-- end of table -->', lambda m: '<!-- table -->\n' + text + '<!-- end of table -->', d, flags=re.S)
open(ROOT + '/DESIGN.md', 'w').write(d)
