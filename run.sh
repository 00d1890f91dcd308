#!/bin/bash
# run.sh PROPERTY [quick|thorough]: verify one property against /repo's current tree
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
[ -n "$2" ] && export VERIF_TIER="$2"
mkdir -p bin evidence
( cd govc && go build -o ../bin/govc . ) || { echo "ERROR: the verifier does not build"; exit 2; }
exec ./bin/govc check "$1"
