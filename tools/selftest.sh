#!/bin/bash
# selftest.sh [harness]: runs engine/selftest (language and library features on symbolic inputs) in the engine.
root=$(cd "$(dirname "$0")/.." && pwd)
bash "$root/run.sh" build || exit 1
r=$(mktemp -d); trap 'rm -rf "$r"' EXIT
mkdir -p "$r/harness" "$r/build"
cp -r "$root/harness/." "$r/harness/"; mkdir -p "$r/harness/h/zz_hself"; cp -r "$root/spec" "$r/"
cp "$root"/engine/selftest/*.go "$r/harness/h/zz_hself/"
if [ -n "$1" ]; then exec "$root/build/engine" -root "$r" -h "zz_hself.H_SELF_$1" -t 100 $2; fi
"$root/build/engine" -root "$r" -prop SELF
python3 - "$r/evidence/SELF.json" <<'P'
import json,sys
d=json.load(open(sys.argv[1]))
for h in d["coverage"].get("per_harness",[]):
    print(h["harness"],"paths",h["paths"],"end",h["reached_end"],"cut",h.get("cut",0),"%.1fs"%h["wall_s"])
P
