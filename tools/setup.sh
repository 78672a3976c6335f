#!/bin/bash
# Builds the verifier once (every check rebuilds it from source; this warms the build cache) and checks the solvers.
cd "$(dirname "$0")/../gvc" || exit 1
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off
d=$(mktemp -d) || exit 1
go build -o "$d/gvc" . || exit 1
rm -rf "$d"
for s in z3 z3-new cvc5; do command -v $s >/dev/null || { echo "missing solver $s"; exit 1; }; done
