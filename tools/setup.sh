#!/bin/bash
# builds the verifier and warms the build cache; every check rebuilds what it needs anyway
set -e
cd "$(dirname "$0")/.."
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p bin
(cd gover && go build -o ../bin/gover .)
(cd replay && go build ./... ) || true
for s in z3-new z3 cvc5; do command -v $s >/dev/null || echo "warning: $s missing"; done
