#!/bin/bash
# Builds the driver once (so that the compiler's cache is warm) and checks that TLC starts.
cd "$(dirname "$0")" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
bin=$(mktemp -d) || exit 1
trap 'rm -rf "$bin"' EXIT
(cd harness && GOFLAGS=-buildvcs=false go build -o "$bin/vh" .) || exit 1
(cd /repo && GOFLAGS="-mod=mod -buildvcs=false" GO111MODULE=on go build -o "$bin/db-recovery" ./cmd/db-recovery) || exit 1
java -version >/dev/null 2>&1
