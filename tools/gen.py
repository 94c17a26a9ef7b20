#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, TECHNIQUE     # noqa

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(p) + '\n')

checks, missing = [], []
for p in PROPS:
    pid = p['id']
    if os.path.isfile(os.path.join(VERIF, 'pbt', 'checks',
                                   pid.lower() + '.py')):
        tech, note = TECHNIQUE[pid]
        checks.append(dict(
            property=pid,
            quick_cmd='/opt/venv/bin/python check.py ' + pid,
            thorough_cmd='/opt/venv/bin/python check.py ' + pid,
            evidence_file='evidence/{}.json'.format(pid),
            technique='property-based testing: ' + tech,
            level='exploration',
            level_note=note))
    else:
        missing.append(dict(property=pid, reason='check not built yet'))

with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(
        version=1,
        setup_cmd='/opt/venv/bin/python pbt/bootstrap.py',
        checks=checks, not_applicable=missing,
        notes='The tier is taken from VERIF_TIER, the seed from VERIF_SEED. '
              'No hooks in /repo are needed: checks only use its public API.'),
        f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(missing), 'missing')
