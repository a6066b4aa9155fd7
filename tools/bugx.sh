#!/bin/bash
# tools/bugx.sh ID [props]: like bug.sh, but in a scratch copy of /repo, so that /repo stays as it is.
set -u
id=$1; b=/verif/seeded/$id; w=/tmp/bugx-$id
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
prop=$(python3 -c "import json,sys;print(json.load(open('$b/meta.json'))['property'])")
rm -rf "$w"; mkdir -p "$w"; cp -a /repo "$w/repo"; git -C "$w/repo" checkout -q -- .
cp -a /verif/sim "$w/sim"; cp /verif/known_findings.txt "$w"
sed -i "s#/repo#$w/repo#g" "$w/sim/build.sh"
trap 'rm -rf "$w"' EXIT
cd "$w/repo"
timeout 300 bash $b/demo.sh >$w/out 2>&1 || { echo "$id: demo FAILS on the clean tree"; tail -20 $w/out; exit 1; }
git apply $b/patch.diff || { echo "$id: patch does not apply"; exit 1; }
go build ./... || { echo "$id: does not build"; exit 1; }
go test -vet=off -timeout 100s ./... >$w/out 2>&1 || { echo "$id: tests fail"; grep -E "FAIL|panic" $w/out | head; exit 1; }
if timeout 300 bash $b/demo.sh >$w/out 2>&1; then echo "$id: demo PASSES with the patch"; exit 1; fi
grep -m3 -E "^\s+\S+_test.go|panic:|FAIL" $w/out
[ "${2:-}" = nocheck ] && exit
bash $w/sim/build.sh || exit 1
for p in ${2:-$prop}; do
  s=$(date +%s)
  $w/.build/simcheck run -prop $p -tier quick -seed 1 -evidence $w/ev.json -replays /tmp/rp -known $w/known_findings.txt >$w/chk 2>&1; rc=$?
  echo "$id: check $p exit $rc after $(( $(date +%s)-s ))s: $(grep -m1 -E 'VIOLATION [a-z]' $w/chk | cut -c1-200)"
done
