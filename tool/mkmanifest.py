#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.PROPS:
        s = registry.PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i, 'thorough_cmd': 'python3-vt check.py %s thorough' % i,
                       'technique': s.get('technique', 'contract-based deductive verification: pre/postconditions, loop invariants and callee contracts on the code extracted from /repo as LLVM IR, obligations discharged by CBMC (IR to C) and by the VC generator tool/sym.py over z3'),
                       'level': s.get('level', 'proof'), 'level_note': s.get('note', 'see DESIGN.md')})
    else:
        na.append({'property': i, 'reason': registry.NA.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: contracts live in /verif/contracts and are linked with the code extracted from /repo on every run.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
