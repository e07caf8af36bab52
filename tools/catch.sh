#!/bin/bash
# tools/catch.sh [ID...]: runs the quick check of each planted change's property on a scratch copy with the change
cd "$(dirname "$0")/.." || exit 1
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
  w=$(mktemp -d /tmp/catch-XXXXXX)
  cp -a /repo "$w/repo"
  git -C "$w/repo" apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  s=$(date +%s)
  out=$(PYMECH_REPO="$w/repo" VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.py "$p" --tier quick 2>&1); rc=$?
  rm -rf "$w"
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 VIOLATION)"
done
