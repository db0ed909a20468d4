#!/bin/bash
# seed.sh <id>: turns the uncommitted edit in the scratch copy $SEED_REPO (of /repo) into /verif/seeded/<id>/patch.diff and validates it:
# it builds, passes the stable tests, and demo.sh tells the trees apart. Then runs the property's check on it.
# /verif/seeded/<id> must hold meta.json and the demo's *.go.txt. SKIP=1: only re-run demo and check of an existing one.
set -u
id=$1
R=${SEED_REPO:-/tmp/seed/repo} S=/verif/seeded/$id
. /opt/vp/env.sh
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if [ -z "${SKIP:-}" ]; then
  git -C "$R" diff > "$S/patch.diff"
  [ -s "$S/patch.diff" ] || { echo "no edit"; exit 1; }
  cp --update=none /verif/tools/demo/demo.sh.txt "$S/demo.sh"; [ -f "$S/nohelp" ] || cp /verif/tools/demo/help.go.txt "$S/help.go.txt"
  chmod +x "$S/demo.sh"
  (cd "$R" && go build ./... && go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/seed/go.json; python3 /opt/vp/results.py /tmp/seed/out.json gojson:/tmp/seed/go.json >/dev/null
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed/out.json'))
p=set(o['passed']); m=[t for t in (b.get('stable') or b.get('passed')) if t not in p]
print('tests', 'ok' if not m else m[:8])
P
  )
fi
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
bash "$S/demo.sh" > /tmp/seed/clean.log 2>&1; echo "demo clean rc=$? (want 0)"
git apply --check "$S/patch.diff" || exit 1
git apply "$S/patch.diff"
bash "$S/demo.sh" > /tmp/seed/bug.log 2>&1; echo "demo bug rc=$? (want 1)"
if [ -z "${NOCHECK:-}" ]; then
  for p in ${PROPS:-$prop}; do
    s=$(date +%s); timeout 900 /verif/check.sh $p quick > /tmp/seed/check.log 2>&1; echo "check $p rc=$? (want 1) $(( $(date +%s)-s ))s"
    grep -a VIOLATION /tmp/seed/check.log | head -3 | cut -c1-200
  done
fi
git checkout -q -- .
