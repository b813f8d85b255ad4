#!/usr/bin/env python3
"""cost.py MODULE OUT [LIMIT]: writes measured costs into the harness lines; over LIMIT seconds -> thorough tier"""
import re, sys
m, out = sys.argv[1:3]
lim = float(sys.argv[3]) if len(sys.argv) > 3 else 40
t = {}
for l in open(out):
    k = re.match(r"(vh_\w+) (\w+) .*?\bt=([\d.]+)", l)
    if k:
        t[k.group(1)] = float(k.group(3))
p = "/verif/rig/harness/%s.rs" % m
r = []
for l in open(p):
    k = re.match(r"(\s*(vh_\w+)\s*=.*;)\s*(//.*)?$", l.rstrip("\n"))
    if k and k.group(2) in t:
        s = t[k.group(2)]
        c = []
        if s > lim:
            c.append("tier=thorough")
        if s > 2:
            c.append("cost=%d" % round(s))
        tm = re.search(r"timeout=\d+", k.group(3) or "")
        if tm:
            c.append(tm.group(0))
        l = k.group(1) + (" // " + " ".join(c) if c else "") + "\n"
    elif k and k.group(3) is None and len(t) > 3:
        l = k.group(1) + " // tier=thorough cost=200 timeout=400\n"
    r.append(l)
open(p, "w").writelines(r)
