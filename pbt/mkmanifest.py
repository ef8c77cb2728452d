#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl (development helper)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'property-based testing: generated inputs against '
from notes import NOTES  # noqa: E402
checks = []
na = []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    oracle, note = NOTES[i]
    checks.append({'property': i,
                   'quick_cmd': './check {} --tier quick'.format(i),
                   'thorough_cmd': './check {} --tier thorough'.format(i),
                   'technique': T + oracle,
                   'level': 'exploration', 'level_note': note})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
           'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
