#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the rule registry."""
import json
import os
import sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, 'tools')]
from props import P, NA, LEVEL      # noqa: E402
from sa.rules import REGISTRY       # noqa: E402

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        assert x['statement'].count('. ') <= 2, x['id']
        f.write(json.dumps(x) + '\n')
ids = [x['id'] for x in P]
assert len(set(ids)) == len(ids)
checks = []
for pid in ids:
    if pid in REGISTRY:
        meta = REGISTRY[pid][0]
        checks.append({'property': pid, 'quick_cmd': 'python3 check.py %s' % pid, 'thorough_cmd': 'python3 check.py %s' % pid,
                       'technique': LEVEL.get(pid, ('static analysis: gated value graph of the source compared in an algebraic normal form', ''))[0],
                       'level': 'other',
                       'level_note': meta['how'] + ' Trusted: the interpreter and normal form in sa/, documented meaning of library calls. ' + LEVEL.get(pid, ('', ''))[1]})
na = [{'property': pid, 'reason': r} for pid, r in NA.items()]
missing = [i for i in ids if i not in REGISTRY and i not in NA]
for i in missing:
    na.append({'property': i, 'reason': 'no check built yet'})
assert not [i for i in REGISTRY if i not in ids], [i for i in REGISTRY if i not in ids]
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks read /repo source only; nothing of do-mpc is executed. See DESIGN.md.'}, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks', 'missing', missing)
