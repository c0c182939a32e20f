#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the analyzer from source and lets it decide one property on /repo's current tree.
id=$1
tier=${2:-${VERIF_TIER:-quick}}
root=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.26.10/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off CGO_ENABLED=0
export HOME=${HOME:-/root}
mkdir -p "$root/evidence"
bin=$(mktemp -d /tmp/vsacheck.XXXXXX)
trap 'rm -rf -- "$bin"' EXIT
if ! (cd "$root/analyzer" && go build -o "$bin/vsacheck" . ) >"$bin/log" 2>&1; then
  cp "$bin/log" "$root/evidence/$id.violations.json"
  cat "$bin/log"
  echo "VIOLATION property=$id replay=$root/evidence/$id.violations.json"
  exit 1
fi
VSA_VERIF=$root "$bin/vsacheck" check "$id" "$tier"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  echo "analyzer ended with status $rc" | tee "$root/evidence/$id.violations.json"
  echo "VIOLATION property=$id replay=$root/evidence/$id.violations.json"
  exit 1
fi
exit $rc
