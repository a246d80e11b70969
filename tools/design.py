#!/usr/bin/env python3
"""Fills the table of planted changes into DESIGN.md (template: design.md.in)."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
rows = []
for i in sorted(os.listdir('seeded'), key=lambda s: int(s[1:])):
    m = json.load(open('seeded/%s/meta.json' % i))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs']))
open('DESIGN.md', 'w').write(open('tools/design.md.in').read().replace('@@SEEDS@@', '\n'.join(rows)))
