#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(V, 'tools'))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
m = dict(version=1, setup_cmd='python3 run.py --setup', checks=[], not_applicable=[],
    notes='One harness engine (lib/pbt, lib/ctl) drives every check; see DESIGN.md. run.py builds each harness from /repo\'s working tree on every run.')
for p in props:
    if p['id'] in CHECKS:
        c = CHECKS[p['id']]
        modes = {q['mode'] for q in c['parts']}
        t = []
        if 'asan' in modes or 'plain' in modes:
            t.append('property-based testing against a reference model (generated inputs/histories, ASan+UBSan, choice-sequence shrinking)')
        if 'sched' in modes:
            t.append('property-based testing over generated thread schedules (controlled scheduler, deadlock/race/use-after-free oracle, shrinking)')
        if 'gen' in modes:
            t.append('property-based testing over generated programs against a reference model')
        m['checks'].append(dict(property=p['id'], quick_cmd='python3 run.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3 run.py ' + p['id'],
            technique='; '.join(t), level='exploration',
            level_note='Held on every generated case (counts in the evidence file); no proof beyond them. Assumes: ' + '; '.join(c['assumptions']) + '.'))
    else:
        m['not_applicable'].append(dict(property=p['id'], reason=NA.get(p['id'], 'No check built yet.')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
