#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's current
# working tree. The symbolic executor is rebuilt, the code under test is
# reloaded from source on every run.
prop=${1:?usage: check.sh PROPERTY [quick|thorough]}
tier=${2:-quick}
root=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
bin=$(mktemp -d /tmp/symgo.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
(cd "$root/engine" && go build -o "$bin/symgo" .) || exit 2
"$bin/symgo" -root "$root" -property "$prop" -tier "$tier"
rc=$?
exit $rc
