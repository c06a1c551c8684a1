#!/bin/bash
# try.sh [-a] DIR...: runs the check of each planted bug's property against /repo with the bug applied.
for d in "$@"; do
  d=$(realpath "$d"); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
  git -C /repo apply "$d/patch.diff" || continue
  s=$(date +%s); out=$(cd /verif && VERIF_SEED=1 ./check.sh "$p" quick 2>&1); r=$?
  git -C /repo checkout -- .
  echo "== $(basename $d) $p exit=$r $(( $(date +%s)-s ))s"; echo "$out" | grep -v KNOWN | tail -${N:-3} | cut -c1-300
done
