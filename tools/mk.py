#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (kept in one place so that they stay in step)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE, NOTES  # noqa: E402

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': sorted({w.split(':')[0] for _, w in p['mech']}),
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        **({'observe_at': p['observe']} if 'observe' in p else {}),
                        'hook_needed': None}}) + '\n')

checks = []
na = list(NOT_APPLICABLE)
for p in PROPS:
    if os.path.exists(os.path.join(ROOT, 'checks', p['id'] + '.py')):
        checks.append({'property': p['id'], 'quick_cmd': './check.py %s quick' % p['id'],
                       'thorough_cmd': './check.py %s thorough' % p['id'], 'technique': p['technique'],
                       'level': 'exploration', 'level_note': p['note']})
    elif not any(x['property'] == p['id'] for x in na):
        na.append({'property': p['id'], 'reason': 'check not built yet'})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': './check.py --setup', 'checks': checks, 'not_applicable': na,
               'notes': NOTES}, f, indent=1)
print(len(PROPS), 'properties,', len(checks), 'checks')
