#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table (run by hand
when the table changes; both outputs are committed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # property rows
CLAIM = {}      # id -> (technique, level_note)
NA = {}         # id -> reason


def prop(id, title, statement, over, text, why, files, mech, state, obs, claim=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                    'state': state, 'observe_at': obs, 'hook_needed': None}})
    if claim:
        CLAIM[id] = claim
    if na:
        NA[id] = na


exec(open(os.path.join(ROOT, 'tools', 'props_table.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
man = {'version': 1, 'setup_cmd': 'true',
       'checks': [{'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {i}',
                   'technique': CLAIM[i][0], 'level': 'other', 'level_note': CLAIM[i][1]} for i in sorted(CLAIM)],
       'not_applicable': [{'property': i, 'reason': NA[i]} for i in sorted(NA)]}
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
ids = [p['id'] for p in P]
assert len(set(ids)) == len(ids)
miss = [i for i in ids if i not in CLAIM and i not in NA]
print(len(ids), 'properties', len(CLAIM), 'claimed', len(NA), 'n/a', 'undecided', miss)
try:
    import jsonschema
    for p in P:
        jsonschema.validate(p, json.load(open('/root/.vp/PROPERTIES.schema.json')))
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError:
    pass
