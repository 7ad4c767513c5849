#!/bin/bash
# Usage: check.sh PROPERTY
# Builds the analyzer from analyzer/ and decides the property on /repo's current
# source. Exit 0: it holds. Exit 1: VIOLATION line on stdout. Other: error.
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off HOME="${HOME:-/root}"
unset GOOS GOARCH
mkdir -p bin evidence
exec 9>bin/.lock
flock 9
(cd analyzer && GOFLAGS=-mod=vendor go build -o ../bin/aqlverify .) || exit 2
flock -u 9
[ $# -eq 0 ] && exit 0
exec bin/aqlverify -repo /repo -out . "$@" 9>&-
