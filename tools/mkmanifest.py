#!/usr/bin/env python3
"""Writes MANIFEST.json from sa/props.py and properties.jsonl."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa')); sys.setrecursionlimit(20000)
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
from mkmanifest_na import NA
m = {'version': 1, 'setup_cmd': 'python3 sa/build.py setup', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in props.PROPS:
        s = props.PROPS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 sa/check.py %s' % i, 'thorough_cmd': 'python3 sa/check.py %s --tier thorough' % i,
                            'technique': s.get('technique', 'static analysis: disjunctive abstract interpretation of the LLVM IR compiled from the current sources'), 'level': 'other', 'level_note': s.get('note', s['explain'])})
    else: m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'not claimed yet: the analysis for it is being built')})
m['notes'] = 'Static analysis only; every run recompiles the current sources of /repo to LLVM IR and analyses that. No instrumentation hooks in /repo are needed. Repaired defects and known findings: KNOWN_FINDINGS.json.'
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks;', [x['property'] for x in m['not_applicable']])
