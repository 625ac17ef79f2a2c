#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md and the planted bugs in seeded/."""
import glob
import json
import os

top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head, tail = open(top + '/tools/design.md').read().split('@TABLE@\n')
rows = []
for f in sorted(glob.glob(top + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| {} | {} | {} |'.format(
        os.path.basename(os.path.dirname(f)), m['property'],
        m['needs'].replace('|', '/').replace('\n', ' ')))
with open(top + '/DESIGN.md', 'w') as f:
    f.write(head + '| planted bug | caught by | needs |\n|---|---|---|\n' +
            '\n'.join(rows) + '\n' + tail)
