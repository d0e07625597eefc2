#!/bin/bash
# run.sh <property> [quick|thorough]: builds the engine from the committed sources and decides one property on /repo.
set -u
root=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=vendor GOPROXY=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0
mkdir -p "$root/build"
(cd "$root/engine" && go build -o "$root/build/engine" .) || { echo "engine build failed"; exit 2; }
[ "${1:-}" = build ] && exit 0
exec "$root/build/engine" -root "$root" -repo "${VERIF_REPO:-/repo}" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
