#!/usr/bin/env python3
"""Takes the witnesses each harness reached in the last quick run as those it has to reach."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
import sys; sys.path.insert(0, here)
from props import P
out = {}
for p in P:
    hs = json.load(open(os.path.join(root, "evidence", p["id"] + ".json")))["coverage"]["harnesses"]
    quick = [i for i, r in enumerate(p["runs"]) if r.get("only") != "thorough"]
    assert len(quick) == len(hs), p["id"]
    for i, h in zip(quick, hs):
        if h["witnesses_reached"]:
            out["%s/%d" % (p["id"], i)] = sorted(h["witnesses_reached"])
json.dump(out, open(os.path.join(here, "covers.json"), "w"), indent=1)
