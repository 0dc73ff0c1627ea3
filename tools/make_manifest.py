#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of claimed properties."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
import suites

TRACE = ('TLC replays every recorded step of the real calculation through the TLA+ specification and evaluates the law in every '
         'state; nothing is claimed for executions that were not recorded. ')
m = dict(version=1, setup_cmd='python3 /verif/bin/setup.py', checks=[], not_applicable=[],
         notes='TLA+ with TLC; see DESIGN.md. No hooks in /repo: the public API and its files expose the state the specification needs.')
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    d = json.loads(line)
    i = d['id']
    if i in suites.CLAIMED:
        tech, note = suites.CLAIMED[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 bin/check.py %s' % i,
                                thorough_cmd='python3 bin/check.py %s --tier thorough' % i,
                                evidence_file='evidence/%s.json' % i, technique=tech, level='model_checking',
                                level_note=TRACE + note))
    else:
        m['not_applicable'].append(dict(property=i, reason='check not built yet'))
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
