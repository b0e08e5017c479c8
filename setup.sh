#!/bin/bash
# Builds the framework once, to fill the build cache and see that it builds.
cd "$(dirname "$0")" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOTOOLCHAIN=local
t=$(mktemp -d) || exit 1
(cd govc && go build -o "$t/govc" .) && (cd replay && go build -o "$t/replay" .)
rc=$?
rm -rf "$t"
exit $rc
