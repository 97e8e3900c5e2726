#!/bin/bash
# Builds the engine once; run.sh uses it when it is up to date and builds it itself otherwise.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
mkdir -p "$here/.bin"
cd "$here/engine" && go build -o "$here/.bin/gosym" .
