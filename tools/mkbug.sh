#!/bin/bash
# mkbug.sh <id> [PROP,PROP..]: turns the edits in the scratch copy $BUG (default /tmp/bug/repo) into /verif/seeded/<id>/patch.diff,
# checks that the bug counts, and runs the named checks against the copy.  Touches nothing in /repo.
id=$1; d=/verif/seeded/$id; mkdir -p "$d"; BUG=${BUG:-/tmp/bug/repo}
[ -n "$SEED" ] && export VERIF_SEED=$SEED
cd "$BUG" || exit 1
git diff HEAD -- src > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
git -C /repo apply --check "$d/patch.diff" || exit 1
chmod +x "$d/demo.sh"
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp -r "$d" "$t/x"; rm -f "$t/x/patch.diff" "$t/x/meta.json"
(cd /repo && timeout 300 bash "$t/x/demo.sh" >"$t/o1" 2>&1) && echo "demo unchanged: ok" || { echo "demo FAILS on unchanged tree"; tail -20 "$t/o1"; exit 1; }
(cd "$BUG" && timeout 300 bash "$t/x/demo.sh" >"$t/o2" 2>&1) && { echo "demo PASSES with the bug"; exit 1; } || { echo "demo with bug: fails as it should"; tail -3 "$t/o2"; }
(cd "$BUG" && PYTHONPATH="$BUG/src" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -o junit_family=xunit2 --junitxml="$t/j.xml" tests >"$t/o3" 2>&1)
python3 /opt/vp/results.py "$t/r.json" "junit:$t/j.xml"
/opt/venv/bin/python - "$t/r.json" <<'P' || exit 1
import json, sys
r = json.load(open(sys.argv[1])); b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
bad = b - set(r["passed"])
print("stable tests failing:", sorted(bad)[:5] if bad else "none")
sys.exit(1 if bad else 0)
P
if [ -n "$2" ]; then
  c="$t/verif"; mkdir "$c"; cp -r /verif/sim /verif/check.py /verif/known_findings.txt "$c/"; mkdir "$c/evidence" "$c/out"; cd "$c"
  for p in ${2//,/ }; do SIM_REPO_SRC="$BUG/src" VERIF_TIER=quick ./check.py $p 2>&1 | tail -3 | cut -c1-700; done
fi
