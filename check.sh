#!/bin/bash
# Usage: check.sh PROPERTY quick|thorough
# Builds the explorer from the current tree of /repo and explores the state spaces of one property.
set -u
root=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/bin:/usr/bin:/bin HOME=/root
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod GOPATH=/root/go
export VERIF_ROOT=$root VERIF_MC=$root/mc
bin=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
export VERIF_BIN=$bin
cd "$root/mc" || exit 2
if ! go build -o "$bin/mc" ./cmd/mc; then
  echo "check: the code does not build" >&2
  exit 2
fi
"$bin/mc" run "$1" -tier "$2"
