#!/bin/bash
# Compiles the analyzer once, to fill the build cache and report problems early.
root=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.26.10/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off CGO_ENABLED=0
cd "$root/analyzer" && go vet . && go build -o /dev/null .
