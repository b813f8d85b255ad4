#!/usr/bin/env python3
"""replay.py FILE: run a recorded counterexample against the current tree.

Compiles the harness with /repo's sources natively (real std) and runs it on the
recorded input. Exit 1 if the violation reproduces, 0 if it does not.
"""
import json
import shutil
import sys
import tempfile

import check as C
import props
from table import PROPS

r = json.load(open(sys.argv[1]))
P = PROPS[r["property"]]
exe = C.build_native(r["property"], P["modules"], P.get("realfft", False))
d = tempfile.mkdtemp(prefix="replay", dir=C.BUILD)
yes, rc, out = props.reproduced(exe, r["harness"], r["bits"], d)
shutil.rmtree(d, ignore_errors=True)
print(out[-3000:])
print("harness %s, input bits set %s: exit %d: %s" % (r["harness"], r["bits"], rc, "reproduced" if yes else "not reproduced"))
sys.exit(1 if yes else 0)
