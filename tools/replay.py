#!/usr/bin/env python3
"""replay.py CASE: compiles the harness of a saved counterexample from /repo's tree and runs it natively."""
import os, re, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
case = os.path.abspath(sys.argv[1]); t = open(case).read()
m = re.search(r'^# harness harness/(\S+) defs (.*)$', t, re.M)
d = tempfile.mkdtemp(prefix='sxreplay'); check.setup()
try:
    tu = check.TU(m.group(1), d, m.group(2).split()); tu.build()
    if tu.err: sys.exit(tu.err)
    b = tu.replay_bin()
    for fill in (0xBE, 0, 1, 0xFF):
        r = check.replay(b, case, fill)
        if r[0] != 'OK': break
    print(*r[2], sep='\n'); print('REPLAY', r[0], r[1]); sys.exit(1 if r[0] == 'VIOLATION' else 0)
finally: 0 if os.environ.get("KEEP") else shutil.rmtree(d, ignore_errors=True)
