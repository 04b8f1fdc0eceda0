#!/usr/bin/env python3
"""refresh the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, glob, re
rows = ['| change | caught by | needs | breaks |', '|---|---|---|---|']
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f)); rows.append('| %s | %s | %s | %s |' % (f.split('/')[-2], m['property'], m['needs'], m['what_it_breaks']))
s = open('/verif/DESIGN.md').read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
open('/verif/DESIGN.md', 'w').write(s)
