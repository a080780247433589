#!/bin/bash
# usage: seedcheck.sh ID [notests] -- confirm a planted bug in a scratch copy: it builds,
# passes the stable tests, and its demonstration fails with it and passes without it.
ID=$1
S=/verif/seeded/$ID
W=$(mktemp -d /tmp/seed.XXXXXX)
trap '/bin/rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
cp -a "$S" "$W/demo"
/bin/rm -f "$W"/demo/*.diff "$W/demo/meta.json"
cd "$W/repo"
if ! bash "$W/demo/demo.sh" > "$W/clean.log" 2>&1; then echo "$ID: demo FAILS on the unchanged tree"; tail -30 "$W/clean.log"; exit 1; fi
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
cd "$W/repo"
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS= CGO_ENABLED=1
go build -tags 'ledger test_ledger_mock' ./... > "$W/build.log" 2>&1 || { echo "$ID: does not build"; tail "$W/build.log"; exit 1; }
bash "$W/demo/demo.sh" > "$W/bug.log" 2>&1
rc=$?
[ $rc = 1 ] || [ $rc = 2 ] || { echo "$ID: demo with the bug: rc=$rc"; tail "$W/bug.log"; exit 1; }
grep -m3 -E "demo|panic|FAIL" "$W/bug.log"
if [ "$2" != notests ]; then
  go test -json -vet=off -count=1 -timeout 10m -tags 'ledger test_ledger_mock' ./... ./integration-tests/... > "$W/t.log" 2>"$W/t.err"
  python3 /opt/vp/results.py "$W/out.json" "gojson:$W/t.log" > /dev/null
  python3 - "$W/out.json" <<'PY' || { echo "$ID: stable tests fail"; exit 1; }
import json, sys
base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open(sys.argv[1]))
def names(x, k): return set(x.get(k, [])) if isinstance(x, dict) else set(x)
b = set(base["stable"])
g = names(got, "passed") or names(got, "pass")
miss = sorted(b - g)
print("baseline", len(b), "missing", miss[:5])
sys.exit(1 if miss or not b else 0)
PY
fi
echo "$ID: confirmed"
