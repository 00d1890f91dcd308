#!/bin/bash
# mutc.sh file 'sed-expr' PROP : full check on a mutated copy of /repo
rm -rf /tmp/mutrepo; cp -a /repo /tmp/mutrepo
sed -i "$2" /tmp/mutrepo/$1
(cd /tmp/mutrepo && git diff | grep '^[+-]' ; . /tmp/env.sh; go vet ./... 2>&1 | head -3)
. /tmp/env.sh
rm -rf /tmp/mutverif; mkdir /tmp/mutverif; cp -a /verif/contracts /verif/harness /verif/known-findings.txt /verif/govc /verif/run.sh /tmp/mutverif/
cd /tmp/mutverif; REPO_DIR=/tmp/mutrepo ./run.sh $3 quick | cut -c1-300
