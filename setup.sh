#!/bin/bash
# Builds the verifier and warms the build cache of /repo's tests.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOENV=off GOTOOLCHAIN=local GOSUMDB=off
mkdir -p bin && (cd kvc && go build -o ../bin/kvc .)
