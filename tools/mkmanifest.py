#!/usr/bin/env python3
"""writes MANIFEST.json: every property in properties.jsonl with a harness/cNN.cpp is claimed"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(V + '/tools/notes.py').read())
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    if os.path.exists(V + '/harness/%s.cpp' % i.lower()):
        tech, note = NOTES[i]
        checks.append(dict(property=i, quick_cmd='python3 tools/check.py %s --tier quick' % i, thorough_cmd='python3 tools/check.py %s --tier thorough' % i,
                           technique=tech, level='fault_enumeration' if i == 'C16' else 'exploration', level_note=note))
    else: na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='python3 tools/build.py', checks=checks, not_applicable=na,
         notes='No hooks: the checks compile /repo/src from the working tree with sanitizers and use the public API, the public allocation-failure injection and the command line tool.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
