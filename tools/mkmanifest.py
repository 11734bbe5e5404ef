"""Writes /verif/MANIFEST.json from the list of built checks."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
NOTES = json.load(open(os.path.join(R, 'tools', 'notes.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    f = 'checks/%s.py' % p.lower()
    if os.path.exists(os.path.join(R, f)):
        n = NOTES[p]
        checks.append(dict(property=p, quick_cmd='%s %s' % (PY, f),
            thorough_cmd='VERIF_TIER=thorough %s %s' % (PY, f),
            technique=n[0], level=n[2] if len(n) > 2 else 'model_checking',
            level_note=n[1]))
    else:
        na.append(dict(property=p, reason='no check has been built yet'))
json.dump(dict(version=1, setup_cmd='%s tools/setup.py' % PY, checks=checks,
               not_applicable=na),
          open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
