#!/bin/bash
# bash run.sh <property-id>     (VERIF_SEED, VERIF_TIER from the environment)
# Builds the harness against /repo's current working tree and runs one check.
set -u
ID="$1"
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="/usr/local/bin:/usr/local/go/bin:/usr/bin:/bin:$PATH"
export GOPATH="${GOPATH:-/root/go}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
[ "${2:-}" = thorough ] && export VERIF_TIER=thorough
BIN="$(mktemp -d /tmp/verif-bin.XXXXXX)"
trap 'rm -rf "$BIN"' EXIT
cd "$VERIF_DIR/harness" || exit 2
RACE=""
grep -qx "$ID" race.txt && RACE="-race"
go build $RACE -o "$BIN/harness" . || { echo "harness does not build" >&2; exit 2; }
cd /tmp && "$BIN/harness" run "$ID"
exit $?
