"""Which harnesses decide which property; read from the harness sources.

A harness line is   vh_name = call(args);   // tier=thorough cost=5 timeout=600
"""
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))


def harnesses(modules):
    out = []
    for m in modules:
        for line in open(os.path.join(HERE, "rig", "harness", m + ".rs")):
            k = re.match(r"\s*(vh_\w+)\s*=\s*(.*);\s*(?://(.*))?$", line)
            if not k:
                continue
            h = {"name": k.group(1), "bound": k.group(2)}
            for w in (k.group(3) or "").split():
                if "=" in w:
                    a, b = w.split("=", 1)
                    h[a] = b if a == "tier" else float(b)
            out.append(h)
    return out


from properties import PROPS  # noqa: E402

for _p in PROPS.values():
    _p["harness"] = harnesses(_p["modules"])
