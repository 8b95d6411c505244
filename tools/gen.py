#!/usr/bin/env python3
"""gen.py: writes properties.jsonl and MANIFEST.json from tools/properties.py"""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
g = {}
exec(open(here + '/properties.py').read(), g)
root = os.path.dirname(here)
with open(root + '/properties.jsonl', 'w') as f:
    for p in g['P']:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }) + '\n')
        assert len(p['title']) <= 80, p['title']
m = {'version': 1, 'setup_cmd': './run.sh', 'checks': [], 'not_applicable': [],
     'notes': 'All checks are one Go program (checker/) that loads /repo with go/packages, builds SSA form and decides each property on it; run.sh builds it when it is missing or stale.'}
for p in g['P']:
    if 'na' in p:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        m['checks'].append({'property': p['id'], 'quick_cmd': './run.sh ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough ./run.sh ' + p['id'],
            'technique': p['tech'], 'level': p.get('level', 'other'), 'level_note': p['note']})
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not')
