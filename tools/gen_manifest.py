#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import props
P = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
T = 'symbolic execution of the LLVM IR compiled from /repo (irsym), every branch and assertion decided by Z3 over all inputs within the stated bounds; counterexamples replayed natively'
NA = getattr(props, 'NOT_APPLICABLE', {})
checks, na = [], []
for p in P:
    i = p['id']
    if i in props.PROPS:
        s = props.PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': T, 'level': 'other',
                       'level_note': s.get('level_note', 'bounded: ' + '; '.join('%s: %s' % (j.name, j.note) for j in s['jobs']('quick')))[:1500]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet; the code is within reach of the encoding, work in progress')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [n['property'] for n in na])
