#!/bin/bash
# tools/tryseeds.sh [id...]: apply each planted bug to /repo, run the check of its property, undo it,
# and record the outcome in tools/seed_results.json.
cd "$(dirname "$0")/.." || exit 2
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C "${REPO:-/repo}" apply "$PWD/seeded/$s/patch.diff" || { echo "$s does not apply"; continue; }
  t=$(date +%s); timeout 900 bin/check "$p" -repo "${REPO:-/repo}" > /tmp/seed.$s.out 2>&1; rc=$?
  git -C "${REPO:-/repo}" checkout -- .
  echo "$s $p rc=$rc $(( $(date +%s) - t ))s $(grep -m1 '^VIOLATION' /tmp/seed.$s.out)"
  python3 - "$s" "$p" "$rc" <<'P'
import json,sys,re
f="tools/seed_results.json"
try: d=json.load(open(f))
except FileNotFoundError: d={}
s,p,rc=sys.argv[1:]
m=re.search(r"^  (?:assert|panic|deadlock|hang|race)[^\n]*", open("/tmp/seed.%s.out"%s).read(), re.M)
d[s]=(p+": "+m.group(0).strip().split(": ",1)[-1] if m else p) if rc=="1" else "missed (exit %s)"%rc
json.dump(d,open(f,"w"),indent=1,sort_keys=True)
P
done
