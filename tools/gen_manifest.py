"""Writes /verif/MANIFEST.json: a check for every property with a module in checks/, not_applicable for the rest."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(V + '/tools/notes.py').read())
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{V}/checks/{i.lower()}.py') and i not in NA:
        tech, note = NOTES[i]
        checks.append({'property': i, 'quick_cmd': f'./check.py {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./check.py {i}',
                       'technique': tech, 'level': 'model_checking', 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No check yet: the machinery for this property is still being built.')})
m = {'version': 1, 'setup_cmd': 'python3-vt spec/selftest.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks compile the sources through the project\'s own Makefile.build description.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
