"""Writes MANIFEST.json from the list of claimed properties."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
sys.path.insert(0, here)
import claims

checks, na = [], []
for p in props:
    i = p['id']
    if i in claims.NOT_APPLICABLE:
        na.append(dict(property=i, reason=claims.NOT_APPLICABLE[i]))
    else:
        checks.append(dict(
            property=i, quick_cmd=f'python3 check.py {i} --tier quick',
            thorough_cmd=f'python3 check.py {i} --tier thorough',
            technique=claims.TECHNIQUE.get(i, claims.DEFAULT_TECHNIQUE), level='other',
            level_note=claims.NOTE.get(i, claims.DEFAULT_NOTE)))
m = dict(version=1, setup_cmd='python3 -m compileall -q sa check.py', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
