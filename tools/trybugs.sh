#!/bin/bash
# development helper: run a property's quick check against each planted change in a scratch worktree.  trybugs.sh [id...]
cd "$(dirname "$0")/.."
[ $# = 0 ] && set -- $(ls seeded)
W=/tmp/trybugs; [ -d $W ] || git -C /repo worktree add -q --detach $W HEAD
git -C $W checkout -q --detach $(git -C /repo rev-parse HEAD)
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C $W apply $PWD/seeded/$s/patch.diff || { echo "$s DOES NOT APPLY"; continue; }
  st=$(date +%s)
  MATHVC_REPO=$W MATHVC_EVID=/tmp/trybugs_ev python3-vt mathvc/run.py $p --tier quick > /tmp/trybugs.log 2>&1; rc=$?
  echo "$s $p rc=$rc $(( $(date +%s) - st ))s $(grep -m2 VIOLATION /tmp/trybugs.log | tr '\n' ' ')$(tail -1 /tmp/trybugs.log)"
  git -C $W checkout -q -f .
done
