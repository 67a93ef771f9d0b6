#!/usr/bin/env python3
"""Rewrite the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | needs | breaks | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    cells = [d, m['needs'], m['what_it_breaks'], m['property']]
    rows.append('| ' + ' | '.join(c.replace('|', '/').replace('\n', ' ')
                                  for c in cells) + ' |')
path = os.path.join(HERE, 'DESIGN.md')
text = open(path).read()
text = re.sub('(?s)<!-- planted -->.*<!-- /planted -->',
              lambda _: '<!-- planted -->\n' + '\n'.join(rows)
              + '\n<!-- /planted -->', text)
open(path, 'w').write(text)
