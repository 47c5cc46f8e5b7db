#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run it after editing."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': w} for n, w in state]
    if observe:
        a['observe_at'] = observe
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a),
              technique, note))


def na(id, title, statement, over, text, why, files, mech, reason):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}), None, None))
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(HERE, 'tool', 'props_data.py')).read())

for d, t, n in P:
    assert len(d['title']) <= 80, d['id']
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d, t, n in P:
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'bash tool/build.sh',
     'checks': [{'property': d['id'], 'quick_cmd': 'python3-vt check.py %s quick' % d['id'],
                 'thorough_cmd': 'python3-vt check.py %s thorough' % d['id'],
                 'technique': t, 'level': 'other', 'level_note': n} for d, t, n in P if t],
     'not_applicable': NA}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(m['checks']), 'checks')
