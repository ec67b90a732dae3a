#!/usr/bin/env python3
"""replay.py FILE -- run a recorded counterexample against the real code in /repo."""
import sys, os, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tool'))
from engine import *
r = json.load(open(sys.argv[1]))
if r.get('inputs') is None:
    print('no failing input recorded; failed obligations:')
    for f in r['failed_obligations']:
        print('  ', f)
    sys.exit(1)
ws = Workspace()
try:
    ok, txt = replay(ws, Ob(r['contract'], r['harness'], defs=r['defs']), r['inputs'])
    print(txt)
finally:
    ws.close()
sys.exit(1 if ok else 0)
