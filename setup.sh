#!/bin/bash
# Builds the engine from the committed (vendored) sources and warms the build cache. Offline.
set -e
cd "$(dirname "$0")"
export GOROOT=/opt/veriftools/go1.27.3
[ -x "$GOROOT/bin/go" ] || unset GOROOT
export PATH="${GOROOT:+$GOROOT/bin:}$PATH"
export GOFLAGS=-mod=vendor GOPROXY=off GOSUMDB=off GOWORK=off GOENV=off GOTOOLCHAIN=local CGO_ENABLED=0
export GOCACHE="$PWD/.cache/gocache"
mkdir -p bin evidence .cache
(cd gosym && go build -buildvcs=false -o ../bin/gosym .)
./bin/gosym warm || true
