#!/bin/bash
# Runs the demonstration beside this file against the tree in the current directory:
# exit 0 when the property holds, nonzero when it is broken.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.23.12/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod CGO_ENABLED=1
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
[ -f go.work.sum ] || cp /opt/vp/go.work.sum go.work.sum
T=$(mktemp -d)
trap '/bin/rm -rf "$T"' EXIT
python3 - "$D" "$R" > "$T/o.json" <<'PY'
import json, os, sys
d, r = sys.argv[1:]
pkg = "zzdemo"
if os.path.exists(os.path.join(d, "package")):
    pkg = open(os.path.join(d, "package")).read().strip()
print(json.dumps({"Replace": {os.path.join(r, pkg, "zz_" + f): os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith("_test.go")}}))
PY
P=zzdemo; [ -f "$D/package" ] && P=$(cat "$D/package")
go test -c -o "$T/t" -overlay "$T/o.json" -vet=off -tags 'ledger test_ledger_mock' "./$P/" > "$T/log" 2>&1 || { tail -20 "$T/log"; exit 3; }
cd "$T" && HOME=$T TMPDIR=$T timeout 200 ./t -test.run '^TestDemo' > "$T/log" 2>&1
rc=$?
tail -40 "$T/log"
exit $rc
