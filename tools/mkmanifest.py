#!/usr/bin/env python3
# Writes MANIFEST.json from bin/components.py and properties.jsonl.
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(H, 'bin'))
from components import COMPONENTS, PROPERTIES
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    id = p['id']
    if id not in PROPERTIES:
        na.append(dict(property=id, reason='not built yet: the specification of this component is still being written')); continue
    P = PROPERTIES[id]; specs = ', '.join(sorted({COMPONENTS[c]['spec'] for c in P['components']}))
    checks.append(dict(property=id, quick_cmd='bin/check %s --tier quick' % id, thorough_cmd='bin/check %s --tier thorough' % id,
        technique='TLA+ specification (%s) model-checked with TLC; TLC state graph replayed on the real wasm, recorded executions of the wasm validated by TLC' % specs,
        level=P['level'], level_note=P.get('note', 'TLC exhausts the specification within the alphabets and depths in evidence; every edge of that graph is replayed on the wasm built from /repo, and seeded random histories of the wasm are validated step by step against the specification. Outside those bounds nothing is proved. Assumes: ' + '; '.join(P['assumptions']))))
m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the contracts are observed as the chain sees them (calls, views, receipts, balances) by running their real wasm.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
