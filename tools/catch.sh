#!/bin/bash
# catch.sh ID... : applies each planted bug to a scratch clone of /repo and runs its property's quick check there (VP_REPO)
SRC=${SRC:-/repo}; V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  M=$(mktemp -d /tmp/catch.XXXX); git clone -q $SRC $M/r; git -C $M/r apply $V/seeded/$id/patch.diff
  s=$(date +%s); VP_REPO=$M/r python3-vt $V/engine/run.py $P > $M/log 2>&1; rc=$?
  echo "$id $P rc=$rc $(( $(date +%s)-s ))s $(grep -m1 '^job\|VIOLATION\|UNREPRODUCED' $M/log | cut -c1-150)"
  rm -rf $M
done
