#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, tools/props.py (design=, limits=), seeded/*/meta.json, tools/caught.json,
KNOWN_FINDINGS.jsonl and tools/design_tail.md."""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE  # noqa: E402
from design_text import TEXT  # noqa: E402

out = [open(os.path.join(HERE, 'design_head.md')).read().rstrip(), '']
for p in PROPS:
    how, limits = TEXT[p['id']]
    out += ['### %s %s' % (p['id'], p['title']), '', how + ('' if not limits else ' *Limits:* ' + limits), '',
            '*Why tests cannot:* %s *Quantified over:* %s. *Technique:* %s.' % (p['why'], p['quant'], p['technique']), '']
if NOT_APPLICABLE:
    out += ['### Not applicable', '']
    out += ['* %s: %s' % (x['property'], x['reason']) for x in NOT_APPLICABLE] + ['']
out += ['## 3. Planted bugs', '',
        'Each was written from the text of a property and the code, builds, passes the stable tests and fails its own demonstration.',
        'The last column says which checks report it.', '', '| bug | what it breaks | needs | caught by |', '|---|---|---|---|']
caught = {}
path = os.path.join(HERE, 'caught.json')
if os.path.exists(path):
    caught = json.load(open(path))
for m in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    k = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    out.append('| %s | %s | %s | %s |' % (k, d['what_it_breaks'], d['needs'], caught.get(k, d['property'])))
out += ['', '## 4. Defects found', '',
        'Repaired ones are `fix:` commits in /repo; the same list is in KNOWN_FINDINGS.jsonl. Open ones are reported as KNOWN-FINDING.',
        '', '| property | state | what fails |', '|---|---|---|']
for line in open(os.path.join(ROOT, 'KNOWN_FINDINGS.jsonl')):
    d = json.loads(line)
    out.append('| %s | %s | %s |' % (d['property'], d['commit'] if d['status'] == 'fixed' else 'open', d['what']))
out += ['', open(os.path.join(HERE, 'design_tail.md')).read().rstrip()]
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out) + '\n')
