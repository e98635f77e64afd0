"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, 'tools', 'techniques.json')))
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
  p = json.loads(l)
  i = p['id']
  if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')) and i in NOTES:
    checks.append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i,
                       thorough_cmd='python3 run.py %s --tier thorough' % i,
                       technique=NOTES[i]['technique'], level='exploration', level_note=NOTES[i]['note']))
  else:
    na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         hooks=dict(guard='DPACC_VERIF', enable='none needed: no hooks are compiled into /repo; monitors wrap the public API from /verif', source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
