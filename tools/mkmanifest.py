"""Writes /verif/MANIFEST.json from the list of implemented checks."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NOTE = {}
exec(open(os.path.join(ROOT, 'tools', 'levelnotes.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'checks', i + '.py')) and i in NOTE:
        tech, note = NOTE[i]
        checks.append(dict(property=i, quick_cmd='python3-vt checks/%s.py' % i, thorough_cmd='VERIF_TIER=thorough python3-vt checks/%s.py --thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=tech, level='model_checking', level_note=note))
    else:
        na.append(dict(property=i, reason='check under construction'))
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the abstract state is visible through the public API. TLA+ specifications in spec/, checked with TLC; tools/ encodes recorded executions of the library built from /repo.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
