"""regenerates MANIFEST.json from the checks that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTE = json.load(open(V + '/tools/levels.json'))
checks, na = [], []
for p in props:
    i = p['id']
    f = 'checks/%s.py' % i.lower()
    if os.path.exists(os.path.join(V, f)) and i in NOTE:
        n = NOTE[i]
        checks.append({'property': i, 'quick_cmd': 'python3-vt ' + f, 'thorough_cmd': 'python3-vt ' + f,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': n['technique'], 'level': n.get('level', 'proof'), 'level_note': n['note']})
    else:
        na.append({'property': i, 'reason': NOTE.get('_na', {}).get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
