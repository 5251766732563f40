#!/usr/bin/env python3
"""Regenerates MANIFEST.json from rules/registry.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(R, 'engine'), os.path.join(R, 'rules')]
import registry
ids = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in registry.RULES:
        m = registry.META[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': m['technique'], 'level': registry.level(i), 'level_note': m['note']})
    else:
        na.append({'property': i, 'reason': registry.NOT_APPLICABLE.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 engine/build.py all', 'checks': checks, 'not_applicable': na,
           'notes': 'Static analysis of the typed MIR of /repo, rebuilt from the working tree on every run; see DESIGN.md.'},
          open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
