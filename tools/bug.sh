#!/bin/bash
# tools/bug.sh ID: confirms /verif/seeded/ID in a scratch copy of /repo and runs the property's quick check on it.
set -u
id=$1; b=/verif/seeded/$id; w=/tmp/bug-$id
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
prop=$(python3 -c "import json,sys;print(json.load(open('$b/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo is dirty"; exit 1; }
bash $b/demo.sh >/tmp/bug.out 2>&1 || { echo "$id: demo FAILS on the clean tree"; tail -20 /tmp/bug.out; exit 1; }
git apply $b/patch.diff || { echo "$id: patch does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh || { echo "$id: does not build"; exit 1; }
t=$(bash /opt/vp/test.sh /tmp/bug.json | tail -1)
case "$t" in "44 passed, 0 failed") ;; *) echo "$id: tests: $t"; exit 1;; esac
if timeout 300 bash $b/demo.sh >/tmp/bug.out 2>&1; then echo "$id: demo PASSES with the patch"; exit 1; fi
grep -m3 -E "^\s+\S+_test.go|panic:|FAIL" /tmp/bug.out
if [ "${2:-}" != nocheck ]; then
  s=$(date +%s)
  for p in ${2:-$prop}; do
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh $p quick >/tmp/bug.chk 2>&1); rc=$?
  echo "$id: check $p exit $rc after $(( $(date +%s)-s ))s: $(grep -m1 -E 'VIOLATION [a-z]' /tmp/bug.chk | cut -c1-200)"
  tail -1 /tmp/bug.chk | cut -c1-160
  done
fi
git -C /repo checkout -q -- .
bash /verif/sim/build.sh
