#!/bin/bash
# Compiles the harness once, so that the build cache is warm; every check
# builds its own binary from /repo's working tree.
set -eu
cd "$(dirname "$0")/harness"
export GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
T=$(mktemp -d /tmp/vh-setup-XXXXXX)
trap 'rm -rf "$T"' EXIT
cp go.mod go.sum "$T/"
go build -modfile="$T/go.mod" -o "$T/vh" ./cmd/vh
go build -race -modfile="$T/go.mod" -o "$T/vh-race" ./cmd/vh
"$T/vh" list
