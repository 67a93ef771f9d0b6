#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the implemented checks."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
import check  # noqa: E402

PY = '/opt/venv/bin/python'
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    try:
        c = check.load(pid)
    except (ImportError, KeyError):
        na.append({'property': pid, 'reason': 'not covered yet'})
        continue
    checks.append({
        'property': pid,
        'quick_cmd': f'{PY} check.py {pid} --tier quick',
        'thorough_cmd': f'{PY} check.py {pid} --tier thorough',
        'technique': getattr(c, 'technique', None) or
        'runtime monitoring: reference-model oracle over observed runs of '
        'generated workloads',
        'level': 'exploration',
        'level_note': getattr(c, 'level_note', None) or
        'Held on every generated execution observed; trusts the md4c parser, '
        'polib, and the reference model and generators in /verif/lib.',
    })
json.dump({
    'version': 1,
    'setup_cmd': f"{PY} -c 'import polib, md4c'",
    'checks': checks,
    'not_applicable': na,
}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
