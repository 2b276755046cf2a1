#!/bin/bash
# Warms the build cache (with and without race detector). Checks rebuild on their own.
set -u
cd "$(dirname "$0")/harness" || exit 1
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/usr/local/go/bin:/usr/bin:/bin:$PATH"
export GOPATH="${GOPATH:-/root/go}" GOCACHE="${GOCACHE:-/root/.cache/go-build}" GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1
go build -o /dev/null . && go build -race -o /dev/null .
