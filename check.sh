#!/bin/bash
# check.sh Cxx: verifies property Cxx against /repo's current tree.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOENV=off GOTOOLCHAIN=local GOSUMDB=off
if [ ! -x bin/kvc ] || [ -n "$(find kvc -name '*.go' -newer bin/kvc -print -quit)" ]; then
  mkdir -p bin && (cd kvc && go build -o ../bin/kvc .) || { echo "cannot build the verifier"; exit 2; }
fi
exec bin/kvc -verif "$PWD" check "$1"
