"""Rewrite the table of planted bugs at the end of DESIGN.md (development aid)."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## Planted bugs\n'
ALSO = json.load(open(os.path.join(HERE, 'tools', 'also_caught.json')))
rows = []
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    name = os.path.basename(os.path.dirname(f))
    rows.append('| `%s` | %s | %s | %s |' % (
        name, m['what_it_breaks'], m['needs'],
        ', '.join([m['property']] + ALSO.get(name, []))))
text = open(os.path.join(HERE, 'DESIGN.md')).read().split(MARK)[0].rstrip()
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(
    text + '\n\n' + MARK + """
Each lies in `seeded/<id>/` with a demonstration. The last column names the
checks whose quick command reported it when it was tried; "(missed)" marks one
that its own check does not see yet.

| id | what it breaks | needs | caught by |
|---|---|---|---|
""" + '\n'.join(rows) + '\n')
