#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the property modules present in pbt/."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Generated-input search against an independent oracle, shrunk to a minimal replayable case; no proof: '
        'assurance is that of the case counts in the evidence file. ')
EXTRA = json.load(open(os.path.join(V, 'tools', 'notes.json')))
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if os.path.exists(os.path.join(V, 'pbt', pid.lower() + '.py')):
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 run.py %s --tier quick' % pid,
            'thorough_cmd': 'python3 run.py %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': EXTRA.get(pid, {}).get('technique', 'property-based testing (Hypothesis) against an independent reference oracle'),
            'level': 'exploration',
            'level_note': NOTE + EXTRA.get(pid, {}).get('note', '')})
    else:
        na.append({'property': pid, 'reason': 'check under construction in this session'})
m = {'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check compiles the Cython/C sources of /repo into .build (keyed by content) and imports the '
              'Python sources of /repo directly; nothing is read from the in-tree build products. No hooks are used.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
