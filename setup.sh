#!/bin/bash
# Warms the Go build cache; every check builds what it needs by itself.
set -u
cd "$(dirname "$0")/harness" || exit 1
export HOME="${HOME:-/root}" PATH="/usr/local/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
W=$(mktemp -d) || exit 1
trap 'rm -rf "$W"' EXIT
go build -o "$W/vmc" ./cmd/vmc && go build -race -o "$W/conc" ./cmd/conc && go build -o "$W/instr" ./cmd/instr
