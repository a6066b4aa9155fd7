#!/bin/bash
# check.sh <property> <tier>: builds the simulator from /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
bash sim/build.sh || exit 2
mkdir -p evidence replays
exec .build/simcheck run -prop "$1" -tier "${2:-quick}" -seed "${VERIF_SEED:-1}" \
  -evidence "evidence/$1.json" -replays replays -known known_findings.txt
