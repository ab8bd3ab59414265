#!/bin/bash
# Builds the harness against /repo's working tree and runs one check.
# usage: check.sh <property> [quick|thorough]
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
ID="${1:?usage: check.sh <property> [quick|thorough]}"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_SEED="${VERIF_SEED:-1}"
export GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
BUILD=$(mktemp -d /tmp/vh-build-XXXXXX) || exit 2
trap 'rm -rf "$BUILD"' EXIT
RACE=""
case " $(cat race_checks.txt) " in *" $ID "*) RACE="-race" ;; esac
# the module files are copied, so that a build never rewrites the committed ones
cp harness/go.mod "$BUILD/go.mod"; cp harness/go.sum "$BUILD/go.sum"
(cd harness && go build $RACE -modfile="$BUILD/go.mod" -o "$BUILD/vh" ./cmd/vh) || { echo "BUILD-FAILED property=$ID"; exit 4; }
if [ -z "$RACE" ]; then
  # a part of the workload runs once more under the race detector
  (cd harness && go build -race -modfile="$BUILD/go.mod" -o "$BUILD/vh-race" ./cmd/vh) || { echo "BUILD-FAILED property=$ID"; exit 4; }
  export VH_RACE_BIN="$BUILD/vh-race"
fi
"$BUILD/vh" "$ID"
