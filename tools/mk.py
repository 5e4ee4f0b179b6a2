#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, level_note, level='exploration'):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe, note=level_note))
exec(open(os.path.join(V, 'tools/properties.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['statement'],
            'quantifier': {'over': x['over'], 'text': x['qtext']}, 'why_tests_cant': x['why'],
            'anchors': {'files': x['files'], 'mechanism': [{'name': n, 'where': w} for n, w in x['mech']], 'observe_at': x['observe'] if isinstance(x['observe'], list) else [x['observe']]}}, ensure_ascii=False) + '\n')
done = [x for x in P if os.path.exists(os.path.join(V, 'checks', x['id'] + '.mjs'))]
m = {'version': 1, 'setup_cmd': 'lib/build.sh front yulc cli rt',
     'checks': [{'property': x['id'], 'quick_cmd': f"./check {x['id']} --tier quick", 'thorough_cmd': f"./check {x['id']} --tier thorough",
                 'technique': 'property-based testing: ' + x['note'][0], 'level': 'exploration', 'level_note': x['note'][1]} for x in done],
     'not_applicable': [{'property': x['id'], 'reason': 'its check is not built yet'} for x in P if x not in done]}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
