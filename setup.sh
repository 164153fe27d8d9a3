#!/bin/bash
# Verifies that the explorer can be built
root=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
cd "$root/mc" && go build -o /dev/null ./cmd/mc
