#!/usr/bin/env python3-vt
"""Writes /verif/seeded/<id>/ from the entries in seeds.py and verifies each one in a scratch copy of /repo.
usage: mkseeds.py [id...]   (no check reads the result)"""
import json, os, subprocess, sys, tempfile, shutil, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeds
DEMO = '''#!/bin/bash
# Runs a Go test in the package of the changed code, laid over the repository.
d=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=
o=$(mktemp)
trap 'rm -f "$o"' EXIT
cat > "$o" <<EOF
{"Replace": {%s}}
EOF
go test -overlay "$o" -vet=off -count=1 -timeout 120s -run '^TestSeed' ./%s
'''
def sh(c, cwd=None, env=None):
    r = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, env=env)
    return r.returncode, r.stdout + r.stderr
ok = True
for s in seeds.S:
    if sys.argv[1:] and s["id"] not in sys.argv[1:]:
        continue
    d = f"{root}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed.")
    sh(f"cp -a /repo/. {w}/")
    for f, old, new in s["edits"]:
        p = f"{w}/{f}"
        t = open(p).read()
        if t.count(old) != 1:
            print(s["id"], "EDIT matches", t.count(old), "times:", old.strip().splitlines()[0]); ok = False
        open(p, "w").write(t.replace(old, new, 1))
    _, diff = sh("git diff --no-color", cwd=w)
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    files = {}
    pkg = s["pkg"]
    open(f"{d}/demo_test.go", "w").write(s["test"])
    files["zz_seed_demo_test.go"] = "demo_test.go"
    if s.get("helper"):
        open(f"{d}/helper_test.go", "w").write(seeds.HELPER)
        files["zz_seed_helper_test.go"] = "helper_test.go"
    rep = ", ".join(f'"$PWD/{pkg}/{k}": "$d/{v}"' for k, v in files.items())
    open(f"{d}/demo.sh", "w").write(DEMO % (rep, pkg))
    os.chmod(f"{d}/demo.sh", 0o755)
    # changed lines must be original ones
    base = None
    rc, out = sh("git log --format=%h | tail -1", cwd="/repo"); base = out.strip()
    bad = []
    for m in re.finditer(r"^--- a/(\S+)\n\+\+\+ .*\n((?:[@ +\-\\].*\n?)*)", diff, re.M):
        f = m.group(1); ln = 0; orig = 0
        for l in m.group(2).splitlines():
            h = re.match(r"@@ -(\d+)", l)
            if h: ln = int(h.group(1)); continue
            if l.startswith("-"):
                _, b = sh(f"git blame -s -L{ln},{ln} {f}", cwd="/repo")
                if not b.startswith("^"): bad.append(f"{f}:{ln}")
                ln += 1
            elif l.startswith(" "): ln += 1
    rc0, o0 = sh("go build ./mqtt/... 2>&1", cwd=w)
    rc1, o1 = sh("CGO_ENABLED=0 go test -vet=off -count=1 ./mqtt/... 2>&1", cwd=w)
    rc2, o2 = sh(f"bash {d}/demo.sh", cwd="/repo")
    rc3, o3 = sh(f"bash {d}/demo.sh", cwd=w)
    st = "ok" if not bad and "[build failed]" not in o3 and rc0 == 0 and rc1 == 0 and rc2 == 0 and rc3 != 0 else "BAD"
    if st == "BAD": ok = False
    print(s["id"], s["prop"], st, "not original:" + ",".join(bad) if bad else "", f"build {rc0} tests {rc1} demo clean {rc2} patched {rc3}")
    if st == "BAD" or os.environ.get("V"):
        print(o0[-600:], o1[-800:] if rc1 else "", o2[-1500:] if rc2 else "", o3[-1500:])
    shutil.rmtree(w)
sys.exit(0 if ok else 1)
