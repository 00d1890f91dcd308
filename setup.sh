#!/bin/bash
# builds the verifier from the committed sources, offline
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
cd "$(dirname "$0")" || exit 2
mkdir -p bin evidence
cd govc && go build -o ../bin/govc .
