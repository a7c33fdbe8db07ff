#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and checks.json from props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
root = os.path.dirname(here)
from props import P, NA

try:
    covers = json.load(open(os.path.join(here, "covers.json")))
except FileNotFoundError:
    covers = {}

def line(id, title, statement, over, text, tests, files, mech, observe, state=()):
    assert len(title) <= 80, (id, title, len(title))
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": tests,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "observe_at": observe, "hook_needed": None}}

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(line(p["id"], p["title"], p["statement"], p["over"], p["text"], p["tests"], p["files"], p["mech"], p["observe"], p["state"])) + "\n")
    for id, title, st, over, text, tests, files, mech, reason in NA:
        f.write(json.dumps(line(id, title, st, over, text, tests, files, mech, [])) + "\n")

checks = {}
for p in P:
    runs = []
    for i, r in enumerate(p["runs"]):
        r = dict(r)
        c = covers.get("%s/%d" % (p["id"], i))
        if c:
            r["covers"] = c
        runs.append(r)
    checks[p["id"]] = {"title": p["title"], "outside": p["outside"], "stubs": p["stubs"], "runs": runs}
json.dump(checks, open(os.path.join(root, "checks.json"), "w"), indent=1)

m = {"version": 1, "setup_cmd": "./bin/setup",
     "checks": [{"property": p["id"], "quick_cmd": "./bin/check " + p["id"], "thorough_cmd": "./bin/check %s -tier thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": "symbolic execution of the Go SSA form of /repo with an SMT solver (z3)",
                 "level": "model_checking",
                 "level_note": "Bounded: holds for every value, path and schedule within: " + "; ".join(r["fn"].split(".")[1] + ": " + r["bounds"] for r in p["runs"]) +
                               ". Outside: " + p["outside"] + ". Trusts the engine's model of Go and of the standard library, validated by running passing paths and every counterexample natively; assumes: " + ("; ".join(p["stubs"]) or "nothing else") + "."} for p in P],
     "not_applicable": [{"property": n[0], "reason": n[-1]} for n in NA],
     "notes": "No hooks: harnesses live in /verif/harness and are laid over a scratch copy of /repo on every run."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(NA), "not applicable")

# ---- DESIGN.md
d = os.path.join(root, "DESIGN.md")
t = open(d).read()
def fill(t, tag, body):
    a, b = "<!-- %s -->" % tag, "<!-- /%s -->" % tag
    i, j = t.index(a) + len(a), t.index(b)
    return t[:i] + "\n" + body + t[j:]
body = ""
for p in P:
    body += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
    body += "Over %s. Beyond tests: %s. Observed at: %s.\n\n" % (p["text"], p["tests"], ", ".join(p["observe"]))
    for r in p["runs"]:
        th = ", ".join("%s=%s" % kv for kv in (r.get("thorough") or {}).items())
        body += "* `%s`%s: %s%s\n" % (r["fn"], " (%s only)" % r["only"] if r.get("only") else "", r["bounds"], "; thorough: " + th if th else "")
    body += "* Outside: %s.\n\n" % p["outside"]
t = fill(t, "properties", body)
t = fill(t, "na", "".join("* **%s %s.** %s.\n" % (n[0], n[1], n[-1]) for n in NA))
try:
    res = json.load(open(os.path.join(here, "seed_results.json")))
except FileNotFoundError:
    res = {}
sys.path.insert(0, here)
import seeds
rows = "| change | property | needs | reported by |\n|---|---|---|---|\n"
for s in seeds.S:
    r = res.get(s["id"], "")
    rows += "| %s | %s | %s | %s |\n" % (s["id"], s["prop"], s["needs"], r)
t = fill(t, "seeds", rows)
open(d, "w").write(t)
