#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept here so that it stays readable)."""
import json, os
P = []
CHECKS = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note='', na=None, **kw):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    a.update(kw)
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': a})
    if na:
        NA.append({'property': id, 'reason': na})
    else:
        CHECKS.append({'property': id, 'quick_cmd': 'python3 check.py ' + id,
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % id,
                       'technique': 'static analysis: ' + technique, 'level': 'other', 'level_note': note})


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props.py')).read())
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
json.dump({'version': 1, 'setup_cmd': 'bash tools/build.sh', 'checks': CHECKS, 'not_applicable': NA},
          open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'MANIFEST.json'), 'w'), indent=1)
