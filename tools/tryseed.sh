#!/bin/bash
# tryseed.sh SEED... : apply the planted change to the repository, run the check of its property, undo
V=${V:-/verif}; R=${REPO:-/repo}
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$s/meta.json'))['property'])")
  git -C $R apply $V/seeded/$s/patch.diff || exit 1
  (cd $V && VERIF_REPO=$R timeout 900 bin/check $p quick > /tmp/try_$s.log 2>&1); rc=$?
  git -C $R checkout -q -- .
  echo "$s $p rc=$rc $(grep -h '^VIOLATION' /tmp/try_$s.log | tail -1)"
done
