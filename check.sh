#!/bin/bash
# check.sh PROPERTY TIER: builds the verifier and decides one property on the
# current tree of /repo.
cd "$(dirname "$0")" || exit 1
export VERIF_DIR="$PWD" GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOTOOLCHAIN=local
bin=$(mktemp -d) || exit 1
trap 'rm -rf "$bin"' EXIT
if ! (cd govc && go build -o "$bin/govc" .) >"$bin/log" 2>&1; then
  cat "$bin/log"
  mkdir -p evidence/replay
  cp "$bin/log" "evidence/replay/$1.json"
  echo "VIOLATION property=$1 replay=$VERIF_DIR/evidence/replay/$1.json no-failing-input-found"
  exit 1
fi
"$bin/govc" check "$1" "${VERIF_TIER_OVERRIDE:-$2}"
rc=$?
[ $rc -eq 0 ] || rc=1
exit $rc
