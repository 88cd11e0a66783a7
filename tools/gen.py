#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'tools'), os.path.join(V, 'rules')]
import props
from registry import RULES
TECH = 'static dataflow/typestate analysis over type-checked MIR'
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
        assert len(d['title']) <= 80, d['id']
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for p in props.PROPS:
    if 'na' in p:
        assert p['id'] not in RULES, p['id']
        na.append({'property': p['id'], 'reason': p['na']})
    else:
        assert p['id'] in RULES, p['id']
        checks.append({'property': p['id'], 'quick_cmd': './check ' + p['id'], 'thorough_cmd': './check ' + p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p.get('tech', TECH), 'level': 'other', 'level_note': p['note']})
for r in RULES: assert any(p['id'] == r for p in props.PROPS), r
json.dump({'version': 1, 'setup_cmd': 'tools/setup.sh', 'checks': checks, 'not_applicable': na, 'notes': 'See DESIGN.md. No hooks are needed in /repo: every check reads the current sources through the compiler.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
