#!/bin/bash
# quiet.sh [id...]: runs checks on copies of /repo with behaviour-preserving changes (tools/refactor); none may alarm.
root=$(cd "$(dirname "$0")/.." && pwd)
bash "$root/run.sh" build || exit 1
[ $# -eq 0 ] && set -- $(cd "$root/tools/refactor" && ls *.diff | sed 's/.diff//')
for id in "$@"; do
  w=/tmp/quiet/$id; rm -rf "$w"; mkdir -p /tmp/quiet; git clone -q /repo "$w" && git -C "$w" apply "$root/tools/refactor/$id.diff" || { echo "$id: does not apply"; continue; }
  for p in ${PROP:-$(cat "$root/tools/refactor/$id.checks")}; do
    r=/tmp/quiet/$id.root; rm -rf "$r"; mkdir -p "$r/build"; cp -r "$root/harness" "$root/spec" "$root/known-findings.txt" "$r/"
    t=$SECONDS
    timeout 900 "$root/build/engine" -root "$r" -repo "$w" -prop "$p" -tier "${TIER:-quick}" > "/tmp/quiet/$id.$p.log" 2>&1
    rc=$?
    cuts=$(python3 -c "
import json,sys
e=json.load(open('$r/evidence/$p.json')); print(str(e.get('cut') or [k for k in e])[:200])" 2>/dev/null)
    echo "$id $p rc=$rc $((SECONDS-t))s $(grep -c '^VIOLATION' /tmp/quiet/$id.$p.log) alarms; $(tail -1 /tmp/quiet/$id.$p.log | cut -c1-200)"
    cp "$r/evidence/$p.json" "/tmp/quiet/$id.$p.json" 2>/dev/null
    rm -rf "$r"
  done
  rm -rf "$w"
done
