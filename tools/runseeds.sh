#!/bin/bash
# development tool: applies every planted change (or those named) to a scratch copy of /repo and runs the check of its property on it
cd "$(dirname "$0")/.." || exit 2
[ $# -gt 0 ] || set -- $(ls seeded)
G=${GOSYM:-/tmp/gosym}
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  w=$(mktemp -d /tmp/rs.XXXXXX); cp -a /repo "$w/repo"
  git -C "$w/repo" apply "$PWD/seeded/$id/patch.diff" || { echo "$id: DOES NOT APPLY"; rm -rf "$w"; continue; }
  s=$(date +%s)
  out=$($G check -prop "$p" -repo "$w/repo" -noevidence -tier ${TIER:-quick} 2>&1); rc=$?
  rm -rf "$w"
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 -E 'VIOLATION' || echo "$out" | tail -1 | cut -c1-200)"
done
