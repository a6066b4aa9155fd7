#!/bin/bash
# Runs the demonstration beside this script against the package in /repo.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH
pkg=$(cat "$here/package")
ov=$(mktemp)
python3 - "$here" "$PWD/$pkg" > "$ov" <<'P'
import json, os, sys
here, pkg = sys.argv[1:]
print(json.dumps({"Replace": {os.path.join(pkg, "zz_" + f): os.path.join(here, f)
                              for f in os.listdir(here) if f.endswith("_test.go")}}))
P
exec go test -vet=off -count=1 -timeout 60s -overlay "$ov" -run 'TestZZ' "./$pkg"
