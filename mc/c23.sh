#!/bin/bash
# c23.sh TIER OUT: instruments a copy of /repo's package in OUT and explores its schedules.
set -u
tier=$1; OUT=$2
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
cd "$HERE" || exit 2
REPO=/repo
go run ./cmd/instr "$REPO" "$OUT/src" >/dev/null || { echo "instrumentation failed" >&2; exit 2; }
CGO_ENABLED=1 go build -race -tags c23 -overlay "$OUT/src/overlay.json" -o "$OUT/c23" ./cmd/c23 || { echo "instrumented copy does not build" >&2; exit 2; }
timeout -k 5 840 "$OUT/c23" "$tier"
