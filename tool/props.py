#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json:  python3 tool/props.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
CHECKS = []
NA = []


def prop(pid, title, statement, over, qtext, why, files, mech, state=None, technique=None, note=None, level='other', na=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    PROPS.append({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
                  'why_tests_cant': why, 'anchors': a})
    if na:
        NA.append({'property': pid, 'reason': na})
    else:
        CHECKS.append({'property': pid, 'quick_cmd': './check.sh %s quick' % pid, 'thorough_cmd': './check.sh %s thorough' % pid,
                       'evidence_file': 'evidence/%s.json' % pid, 'technique': technique, 'level': level, 'level_note': note})


exec(open(os.path.join(V, 'tool', 'proplist.py')).read())

order = lambda x: x.get('id') or x['property']
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(PROPS, key=order):
        f.write(json.dumps(p) + '\n')
M = {'version': 1, 'setup_cmd': './setup.sh', 'checks': sorted(CHECKS, key=order), 'not_applicable': sorted(NA, key=order),
     'notes': 'All checks analyse the typed AST / compiler IR of /repo\'s current working tree; nothing of /repo is executed.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(M, f, indent=1)
    f.write('\n')
import jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in PROPS:
    jsonschema.validate(p, s)
jsonschema.validate(M, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(PROPS), 'properties', len(CHECKS), 'checks', len(NA), 'n/a')
