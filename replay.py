#!/usr/bin/env python3-vt
"""replay.py <file>: run the recorded inputs natively on /repo's code."""
import json
import sys
import check  # sets up the path
from dv.api import REGISTRY
from dv.conc import run_native

d = json.load(open(sys.argv[1]))
cs = [c for c in check.load(d['property']) if c.name == d['contract']]
st, checks, used, err = run_native(cs[0].fn, d['inputs'])
print('contract', d['contract'], 'inputs', used)
for l, ok in checks:
    print('  %-6s %s' % ('ok' if ok else 'FAILED', l))
if err:
    print(err)
sys.exit(1 if st == 'error' or any(not ok for _, ok in checks) else 0)
