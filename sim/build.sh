#!/bin/bash
# Builds the simulator with the current working tree of /repo into /verif/.build/simcheck.
set -u
V="$(cd "$(dirname "$0")/.." && pwd)"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH
B="$V/.build"
mkdir -p "$B/mod" "$B/inst"
log="$B/build.log"
: > "$log"
# A private go.mod: the requirements are /repo's own.
{ echo "module verifsim"; echo "go 1.21"
  echo 'require github.com/arl/go-detour v0.0.0'
  echo 'replace github.com/arl/go-detour => /repo'
  sed -n '/^require/,/^)/p' /repo/go.mod | sed 's|^)|\tgithub.com/arl/go-detour v0.0.0\n)|' | grep -v 'go-detour v0'
  } > "$B/mod/go.mod"
cp /repo/go.sum "$B/mod/go.sum"
cd "$V/sim" || exit 2
(cd "$V/sim/instrument" && go build -o "$B/instrument" main.go) >>"$log" 2>&1 || { echo "cannot build the instrumenter"; tail -20 "$log"; exit 2; }
level=2
rm -f "$B/simcheck"
"$B/instrument" -repo /repo -simrt "$V/sim/simrt" -out "$B/inst" -level $level >>"$log" 2>&1 || { echo "cannot instrument /repo"; tail -20 "$log"; exit 2; }
go build -modfile="$B/mod/go.mod" -overlay "$B/inst/overlay.json" -o "$B/simcheck" ./simcheck >>"$log" 2>&1 || { echo "cannot build the simulation"; tail -30 "$log"; exit 2; }
exit 0
