#!/bin/bash
# catch.sh [id...]: runs the check of each planted bug's property on a copy of /repo with the bug in place.
root=$(cd "$(dirname "$0")/.." && pwd)
bash "$root/run.sh" build || exit 1
[ $# -eq 0 ] && set -- $(ls "$root/seeded")
for id in "$@"; do
  w=/tmp/catch/$id; rm -rf "$w"; mkdir -p /tmp/catch; git clone -q /repo "$w" && git -C "$w" apply "$root/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  p=$(python3 -c "import json,sys;print(json.load(open('$root/seeded/$id/meta.json'))['property'])")
  r=/tmp/catch/$id.root; rm -rf "$r"; mkdir -p "$r/build"; cp -r "$root/harness" "$root/spec" "$root/known-findings.txt" "$r/"
  t=$SECONDS
  "$root/build/engine" -root "$r" -repo "$w" -prop "${PROP:-$p}" -tier "${TIER:-quick}" > "/tmp/catch/$id.log" 2>&1
  rc=$?
  echo "$id ${PROP:-$p} rc=$rc $((SECONDS-t))s $(grep -c '^VIOLATION' /tmp/catch/$id.log) violations; $(grep -m1 -B1 '^VIOLATION' /tmp/catch/$id.log | head -1 | cut -c1-160)"
  rm -rf "$w" "$r"
done
