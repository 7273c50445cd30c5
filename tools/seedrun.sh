#!/bin/bash
# seedrun.sh ID...: apply each planted bug to $TREE (a copy of /repo), run its property's check, undo
V=$(dirname "$(dirname "$(readlink -f "$0")")")
T=${TREE:-/tmp/bug}
export REPO=$T
for i in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('$V/seeded/$i/meta.json'))['property'])")
 git -C $T apply "$V/seeded/$i/patch.diff" || continue
 s=$(date +%s)
 (cd "$V" && VERIF_TIER=quick python3 tools/check.py ${CHECK:-$p} > /tmp/seed.$i.log 2>&1); rc=$?
 git -C $T checkout -q -- .
 echo "$i $p rc=$rc $(( $(date +%s) - s ))s $(grep -a '^violation' /tmp/seed.$i.log | head -1 | cut -c1-150)"
done
