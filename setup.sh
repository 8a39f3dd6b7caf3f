#!/bin/bash
# Builds the symbolic executor and the native replay binary (warming the build
# cache); both are rebuilt by every check.
set -e
root=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
bin=$(mktemp -d /tmp/symgo.XXXXXX)
trap 'rm -rf "$bin"' EXIT
(cd "$root/engine" && go vet . && go build -o "$bin/symgo" .)
(cd "$root/harness" && go vet ./... && go build -o "$bin/replay" ./cmd/replay)
command -v z3-new >/dev/null || command -v z3 >/dev/null
echo "setup done"
