#!/bin/bash
# mut.sh file 'sed-expr' govc-args...
rm -rf /tmp/mutrepo; cp -a /repo /tmp/mutrepo
f=$1; e=$2; shift 2
sed -i "$e" /tmp/mutrepo/$f
(cd /tmp/mutrepo && git diff --stat | tail -1)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off PATH=/opt/veriftools/go1.27.3/bin:$PATH
REPO_DIR=/tmp/mutrepo /tmp/govc "$@" | grep -v "^ok"
