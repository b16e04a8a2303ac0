"""Writes MANIFEST.json from properties.jsonl and run/levels.json."""
import json
import os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
levels = json.load(open(H + '/run/levels.json'))
PY = '/opt/venv/bin/python -B -W ignore check.py '
checks, na = [], []
for line in open(H + '/properties.jsonl'):
    p = json.loads(line)
    i = p['id']
    lv = levels.get(i, {})
    if lv.get('not_applicable'):
        na.append({'property': i, 'reason': lv['not_applicable']})
        continue
    checks.append({
        'property': i, 'quick_cmd': PY + i + ' quick', 'thorough_cmd': PY + i + ' thorough',
        'technique': lv.get('technique', 'contract-based deductive verification (symbolic execution of '
                            'the real functions against contracts, z3), bounded check of the rest'),
        'level': lv.get('level', 'exploration'),
        'level_note': lv.get('note', 'bounded check on the real code; contracts in progress')})
m = {'version': 1,
     'setup_cmd': PY.replace('check.py ', '') + '-c "import dv, z3, datashape"',
     'hooks': {'guard': 'none', 'enable': 'no hooks: the checks read and import /repo as it is',
               'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'Contracts in specs/, verifier in dv/, bounded stand-ins in native/, what was proved '
              'on the committed tree in proved.json, replays in replay/ (not committed).'}
with open(H + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
