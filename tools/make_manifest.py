"""Writes MANIFEST.json from properties.jsonl.  Not run by any check."""
import importlib, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from tools.notes import TECH, NOTE  # noqa: E402
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='/opt/venv/bin/python run.py --setup',
         checks=[dict(property=i, quick_cmd='/opt/venv/bin/python run.py %s' % i,
                      thorough_cmd='/opt/venv/bin/python run.py %s --tier thorough' % i,
                      technique=TECH[i], level='exploration', level_note=NOTE[i]) for i in ids],
         not_applicable=[], notes='Generated-input search with Hypothesis; see DESIGN.md. No hooks in /repo. Known findings: known_findings.txt.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
