#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {'c06-merge-keeps-first-labels'}     # undecided, see section 5
rows = ['<!-- seeds -->', '| seed | caught by | needs |', '|---|---|---|']
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s |' % (d, m['property'] if d not in MISSED else 'none (meant for %s)' % m['property'], m['needs']))
rows.append('<!-- end of seeds -->')
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'SEEDTABLE_BEGIN\nSEEDTABLE_END|<!-- seeds -->.*?<!-- end of seeds -->', lambda m: '\n'.join(rows), s, flags=re.S)
open(p, 'w').write(s)
