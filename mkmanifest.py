#!/usr/bin/env python3
"""Writes MANIFEST.json from units.json, properties.jsonl and not_applicable.json"""
import json, subprocess
U = json.load(open('/verif/units.json')); NA = json.load(open('/verif/not_applicable.json'))
P = [json.loads(l) for l in open('/verif/properties.jsonl')]
hook = [l.split()[0] for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%H %s', '--grep=^verification'], text=True).split('\n') if l]
checks = []; na = []
for p in P:
    i = p['id']
    if i in U:
        u = U[i]
        checks.append(dict(property=i, quick_cmd='./check.py ' + i, thorough_cmd='./check.py ' + i + ' thorough', technique=u['technique'], level=u.get('level', 'proof'), level_note=u['note']))
        assert i not in NA, i
    else: na.append(dict(property=i, reason=NA.get(i, 'in progress: no contract yet')))
json.dump(dict(version=1, setup_cmd='./setup.sh', hooks=dict(guard='cfg(kani)', enable='cargo kani sets cfg(kani) by itself; nothing else does', source_commits=hook), checks=checks, not_applicable=na), open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not', [x['property'] for x in na if x['property'] not in NA])
