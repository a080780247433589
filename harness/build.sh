#!/bin/bash
# usage: build.sh OUT  -- build the conformance test binary from /repo's working tree
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=$1
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.23.12/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod CGO_ENABLED=1
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
cd /repo
[ -f go.work.sum ] || cp /opt/vp/go.work.sum go.work.sum
OV=$(mktemp)
trap '/bin/rm -f "$OV"' EXIT
python3 - "$HERE/go" > "$OV" <<'PY'
import json,os,sys
d=sys.argv[1]
print(json.dumps({"Replace":{"/repo/zzverif/"+f:os.path.join(d,f) for f in sorted(os.listdir(d)) if f.endswith("_test.go")}}))
PY
go test -c -o "$OUT" -overlay "$OV" -vet=off -tags 'ledger test_ledger_mock' ./zzverif/
