"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(here, 'DESIGN.md')
mark = '## Planted bugs\n'
text = open(path).read().split(mark)[0]
rows = []
for m in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    rows.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['what_it_breaks'], d['needs'], d.get('caught_by', d['property'])))
text += mark + '''
Each was written from the statement of its property, breaks it, builds and passes the 40 stable tests. "Caught by" lists
checks that were run against it and exit 1 (the quick tier, seed 1).

| bug | property | what it breaks | needs | caught by |
|---|---|---|---|---|
''' + '\n'.join(rows) + '\n'
open(path, 'w').write(text)
