#!/bin/bash
# check.sh PROPERTY [JOB...]: runs the check of a property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
bin=$(mktemp -d) || exit 2
trap 'rm -rf "$bin"' EXIT
(cd harness && GOFLAGS=-buildvcs=false go build -o "$bin/vh" .) || exit 2
"$bin/vh" check "$@"
