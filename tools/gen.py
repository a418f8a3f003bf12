#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from catalog.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import catalog
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = sorted(catalog.P, key=lambda x: x['id'])
assert len({x['id'] for x in P}) == len(P)
with open(V + '/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps({k: x[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
        assert len(x['title']) <= 80, x['title']
m = dict(version=1, setup_cmd='./setup.sh', checks=[], not_applicable=[],
         notes='Static analysis of the MIR of /repo; no hooks in /repo. See DESIGN.md.')
for x in P:
    if x.get('na'):
        m['not_applicable'].append(dict(property=x['id'], reason=x['na']))
    else:
        m['checks'].append(dict(property=x['id'], quick_cmd='./check %s --tier quick' % x['id'],
                                thorough_cmd='./check %s --tier thorough' % x['id'], technique=x['technique'],
                                level=x['level'], level_note=x['level_note']))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for ln in open(V + '/properties.jsonl'):
    jsonschema.validate(json.loads(ln), ps)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'n/a')
