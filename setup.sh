#!/bin/bash
# Checks that the tools are there and warms Go's build cache. Each check builds
# the harness itself, against the tree it checks.
DIR=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on GOWORK=off
T=$(mktemp -d /tmp/verif.XXXXXX) || exit 1
trap 'rm -rf "$T"' EXIT
cd "$DIR/harness" && go build -o "$T/instr" ./cmd/instr
