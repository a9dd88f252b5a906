#!/usr/bin/env python3
"""Fill in the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
# What the check had to learn before it caught the bug.
LEARNED = {}
with open('tools/learned.txt') as fp:
    for line in fp:
        name, what = line.split(None, 1)
        LEARNED[name] = what.strip()
rows = ['| bug | caught by | needs | what the check had to learn first |',
        '|---|---|---|---|']
for name in sorted(os.listdir('seeded')):
    with open('seeded/{}/meta.json'.format(name)) as fp:
        meta = json.load(fp)
    learned = LEARNED.get(name, '')
    by = meta['property']
    if learned.startswith('MISSED'):
        by = '—'
    rows.append('| {} | {} | {} | {} |'.format(
        name, by, meta['needs'].replace('|', '\\|'), learned))
with open('DESIGN.md') as fp:
    text = fp.read()
text = re.sub(r'(?s)<!-- bugs -->.*?(<!-- end -->|\Z)',
              lambda m: '<!-- bugs -->\n{}\n<!-- end -->'.format(
                  '\n'.join(rows)), text)
with open('DESIGN.md', 'w') as fp:
    fp.write(text.rstrip('\n') + '\n')
