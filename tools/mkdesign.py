#!/usr/bin/env python3
"""Puts the table of planted bugs into DESIGN.md (between the two markers)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | property | needs |', '|---|---|---|']
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
    rows.append('| %s | %s | %s |' % (s, m['property'], m['needs']))
p = os.path.join(V, 'DESIGN.md'); t = open(p).read()
t = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda k: k.group(1) + '\n'.join(rows) + '\n' + k.group(2), t, flags=re.S)
open(p, 'w').write(t)
