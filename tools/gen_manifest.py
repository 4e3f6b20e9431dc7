#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed checks in check.py."""
import ast, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(HERE, 'check.py')).read()
GROUP = ast.literal_eval(re.search(r'GROUP = (\{.*?\n\})', src, re.S).group(1))
NOTES = ast.literal_eval(open(os.path.join(HERE, 'tools', 'level_notes.py')).read())
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
PY = '/opt/venv/bin/python -B check.py %s'
checks, na = [], []
for p in props:
    i = p['id']
    if i in GROUP:
        n = NOTES[GROUP[i]]
        checks.append(dict(property=i, quick_cmd=PY % i,
                           thorough_cmd='VERIF_TIER=thorough ' + PY % i,
                           technique=n[0], level='model_checking', level_note=n[1]))
    else:
        na.append(dict(property=i, reason=NOTES.get('na', {}).get(i, 'no check built yet; to be decided with the TLA+ specification')))
m = dict(version=1,
         setup_cmd='/opt/venv/bin/python -B tools/setup.py',
         checks=checks, not_applicable=na,
         notes='TLA+ specifications in spec/, checked with TLC and bound to the code by replaying generated behaviours '
               'and validating recorded ones; see DESIGN.md.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
