#!/bin/bash
# seedrun.sh ID [CHECK...]: runs the checks against /repo with the planted bug, then undoes it.
id=$1; shift
d=/verif/seeded/$id
[ $# -gt 0 ] || set -- $(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
git -C /repo apply "$d/patch.diff" || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
for c in "$@"; do
  out=$(bash /verif/run.sh $c quick 2>&1); rc=$?
  echo "$id $c rc=$rc $(grep -m1 VIOLATION <<<"$out") $(tail -1 <<<"$out")"
done
