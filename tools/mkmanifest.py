"""Writes /verif/MANIFEST.json from the checks that exist and the reasons below."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the real Python functions, obligations decided by z3 over all values within the bounds'
NOTE = {}
NA = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, 'checks', f'{i}.py')) and i not in NA:
        checks.append(dict(property=i, quick_cmd=f'bash check.sh {i}', thorough_cmd=f'VERIF_TIER=thorough bash check.sh {i}',
                           technique=TECH, level='model_checking', level_note=NOTE.get(i, 'Every value within the stated bounds, exact real arithmetic; see DESIGN.md for bounds and stubs.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na], 'not')
