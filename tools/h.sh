#!/bin/bash
# h.sh RUN [budget-ms] : run root harness tests on REPO (default /repo)
. /tmp/env.sh
R=${REPO:-/repo}; D=$(mktemp -d)
( echo '{"Replace":{'; first=1
for f in /verif/harness/*_test.go; do b=$(basename $f); case $b in cmd_*) continue;; esac
 [ $first = 1 ] || echo ,; first=0; echo "\"$R/zz_verif_$b\":\"$f\""; done; echo '}}' ) > $D/ov.json
cd $R && VERIF_OUT=$D/out VERIF_SEED=${SEED:-1} VERIF_BUDGET_MS=${2:-5000} go test -overlay $D/ov.json -count=1 -vet=off -v -run "$1" . 2>&1 | cut -c1-1500 | head -${LINES_MAX:-60}
rm -r -f $D
