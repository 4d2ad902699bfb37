#!/bin/sh
# tryseeds.sh [SEED...]: runs the check of each seed's property on a patched copy of /repo
V=$(cd "$(dirname "$0")/.." && pwd)
[ $# -gt 0 ] || set -- $(ls $V/seeded)
for s in "$@"; do
  W=/tmp/tryseed.$$; rm -rf $W; mkdir $W; (cd /repo && git archive HEAD) | tar -x -C $W
  (cd $W && git init -q . && git apply $V/seeded/$s/patch.diff) || echo "$s: patch does not apply"
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$s/meta.json'))['property'])")
  t0=$(date +%s)
  VERIF_REPO=$W $V/run.sh $p > /tmp/try.out 2>&1; rc=$?
  echo "$s $p rc=$rc $(($(date +%s)-t0))s"; grep -E "failed obligation|not verified|VIOLATION" /tmp/try.out | cut -c1-170 | head -${LINES_:-4}
  rm -rf $W
done
