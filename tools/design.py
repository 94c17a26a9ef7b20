"""Writes DESIGN.md from tools/design_head.md, the checks and tools/design_tail.md."""
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(HERE))
from pbt import bootstrap
bootstrap.ensure()
from pbt import run, core      # noqa
import importlib
import props

out = [open(os.path.join(HERE, 'design_head.md')).read()]
notes = {}
for line in open(os.path.join(HERE, 'design_notes.md')).read().split('\n## ')[1:]:
    k, v = line.split('\n', 1)
    notes[k.strip()] = v.strip()
for p in props.PROPS:
    pid, title = p['id'], p['title']
    m = importlib.import_module('pbt.checks.' + pid.lower())
    out.append('### {} {}\n\n*Technique*: {}.\n\n*Cases*: {}.\n\n*Sub-checks* (cases: quick / '
               'thorough): {}.\n'.format(
                   pid, title, props.TECHNIQUE[pid][0], m.subs.rule.rstrip('.'),
                   ', '.join('`{}` {} / {}'.format(s.name, s.quick, s.thorough)
                             for s in m.subs)))
    if pid in notes:
        out.append(notes[pid] + '\n')
tail = open(os.path.join(HERE, 'design_tail.md')).read()
VERIF = os.path.dirname(HERE)
known = json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings']
tail = tail.replace('@FIXED@', ''.join('* {}\n'.format(e['record']) for e in known))
rows = ['| change | property | needs | caught by |\n|---|---|---|---|\n']
caught = os.path.join(HERE, 'caught.json')
caught = json.load(open(caught)) if os.path.exists(caught) else {}
sd = os.path.join(VERIF, 'seeded')
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = os.path.join(sd, d, 'meta.json')
    if os.path.exists(m):
        m = json.load(open(m))
        rows.append('| {} | {} | {} | {} |\n'.format(
            d, m['property'], m['needs'].replace('|', '\\|'),
            ', '.join(caught.get(d, [])) or 'none'))
tail = tail.replace('@SEEDED@', ''.join(rows))
out.append(tail)
open(os.path.join(os.path.dirname(HERE), 'DESIGN.md'), 'w').write('\n'.join(out))
