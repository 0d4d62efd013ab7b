#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in meta/props.py (one entry per property)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0, os.path.join(V, 'meta'))
from props import PROPS as ps
with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
    for p in ps:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(d['title']) <= 80, d['title']
        fh.write(json.dumps(d) + '\n')
checks, na = [], []
for p in ps:
    if p.get('technique'):
        assert os.path.exists(os.path.join(V, 'checks', p['id'] + '.py')), p['id']
        checks.append(dict(property=p['id'], quick_cmd='python3 checks/%s.py' % p['id'],
                           thorough_cmd='VERIF_TIER=thorough python3 checks/%s.py' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='other',
                           level_note=p['level_note']))
    else:
        na.append(dict(property=p['id'], reason=p['na']))
m = dict(version=1, setup_cmd='bash tool/build.sh', checks=checks, not_applicable=na,
         notes='All checks analyse the resolved syntax tree of /repo\'s current sources (clang 18 libTooling extractor in tool/, '
               'abstract interpreter in lib/); nothing of /repo is executed.  No hooks are needed in /repo.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
