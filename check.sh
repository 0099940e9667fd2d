#!/bin/bash
# check.sh PROPERTY quick|thorough   explore one property against /repo's working tree
# check.sh replay FILE               run only the case recorded in a replay file
# check.sh build                     build the harness once (warms the build cache)
set -u
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly GOWORK=off
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export MC_DIR=$VERIF
OUT=$(mktemp -d /tmp/mc-check.XXXXXX) || exit 2
trap 'rm -rf "$OUT"' EXIT
prop=${1:-}; tier=${2:-quick}
if [ "$prop" = replay ]; then
  export MC_REPLAY=$(readlink -f "$2")
  prop=$(sed -n 's/^ "property": "\(.*\)",$/\1/p' "$MC_REPLAY")
  tier=$(sed -n 's/^ "tier": "\(.*\)",$/\1/p' "$MC_REPLAY")
fi
cd "$VERIF/mc" || exit 2
case "$prop" in
build) go build -o "$OUT/mc" ./cmd/mc || exit 2; exit 0 ;;
C23) bash "$VERIF/mc/c23.sh" "$tier" "$OUT"; exit $? ;;
esac
go build -o "$OUT/mc" ./cmd/mc || { echo "harness does not build against /repo" >&2; exit 2; }
timeout -k 5 860 "$OUT/mc" "$prop" "$tier"
