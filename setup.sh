#!/bin/bash
# setup.sh: build the engine from the committed sources (offline).
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0
mkdir -p "$here/bin" "$here/evidence"
cd "$here/engine" && go build -o "$here/bin/vpengine" .
