#!/usr/bin/env python3
"""Writes DESIGN.md from the properties, sa/props.py, KNOWN_FINDINGS.json, the planted bugs and the notes below."""
import sys, os, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa')); sys.setrecursionlimit(20000)
import props
from mkmanifest_na import NA
P = {json.loads(l)['id']: json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))}
HEAD = open(os.path.join(V, 'tools', 'design_head.md')).read()
X = {}
exec(open(os.path.join(V, 'tools', 'design_notes.py')).read(), X)
out = [HEAD, '\n## The properties and how each is decided\n']
for i, d in P.items():
    if i in NA: continue
    s = props.PROPS[i]; n = X['N'][i]
    out.append('### %s %s\n' % (i, d['title']))
    out.append('*What is decided.* ' + s['explain'] + '\n')
    out.append('*Oracle.* ' + n[0] + '\n')
    out.append('*Bounds and what stays undecided.* ' + n[1] + '\n')
    out.append('*Why tests do not reach it.* %s. Groups: %s. Cost: about %s s.\n' % (d['why_tests_cant'][0].upper() + d['why_tests_cant'][1:].rstrip('.'), ', '.join(sorted({g.__name__.split('(')[0] for g in s['groups']})), n[2]))
out.append('\n## Properties static analysis does not decide here\n')
for i in NA: out.append('- **%s %s**: %s.' % (i, P[i]['title'], NA[i]))
out.append('\n' + open(os.path.join(V, 'tools', 'design_tail.md')).read())
F = json.load(open(os.path.join(V, 'KNOWN_FINDINGS.json')))
out.append('\n## Genuine defects found and repaired (%d commits)\n' % len(F['fixed']))
out.append('Each is one `fix:` commit in /repo; the check of the property named reports it again if it comes back (each was reverted in a scratch copy while its rule was built).\n')
for l in F['fixed']:
    _, p, c, *t = l.split(' '); out.append('- %s `%s` %s' % (p.split('=')[1], c, ' '.join(t)))
out.append('\nOpen findings: %s\n' % (len(F['open']) or 'none'))
out.append('\n## Planted bugs (seeded/)\n\n| bug | property | needs | caught |\n|---|---|---|---|')
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m)); k = os.path.basename(os.path.dirname(m))
    out.append('| %s | %s | %s | %s |' % (k, d['property'], d['needs'], X['CAUGHT'].get(k, '?')))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
