#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run after editing."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, level_note, state=()):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(text.split())), why_tests_cant=' '.join(why.split()),
        anchors=dict(files=['curvepy/' + f for f in files],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where='curvepy/' + w) for n, w in mechanism],
                     observe_at=observe, hook_needed=None),
        _technique=technique, _note=level_note))

exec(open(os.path.join(V, 'tools', 'spec_props.py')).read())

ids = [p['id'] for p in P]
assert len(ids) == len(set(ids))
have = [p for p in P if os.path.exists(os.path.join(V, 'vf', 'props', p['id'].lower() + '.py'))]
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}, ensure_ascii=False) + '\n')
man = dict(version=1,
    setup_cmd='/opt/venv/bin/python -B check.py setup',
    checks=[dict(property=p['id'], quick_cmd=f"/opt/venv/bin/python -B check.py {p['id']} --tier quick",
                 thorough_cmd=f"/opt/venv/bin/python -B check.py {p['id']} --tier thorough",
                 technique=p['_technique'], level='exploration', level_note=p['_note']) for p in have],
    not_applicable=[dict(property=p['id'], reason='check not built yet') for p in P if p not in have],
    notes='Every check is property-based testing: Hypothesis-generated cases (seeded by VERIF_SEED), an executable '
          'oracle that does not share code with curvepy, shrinking to a replay file. check.py <id> --replay FILE re-runs one case.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write('\n')
import jsonschema
S = '/root/.vp/'
if os.path.exists(S + 'MANIFEST.schema.json'):
    jsonschema.validate(man, json.load(open(S + 'MANIFEST.schema.json')))
    sch = json.load(open(S + 'PROPERTIES.schema.json'))
    for l in open(os.path.join(V, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), sch)
print(len(P), 'properties,', len(have), 'checks')
