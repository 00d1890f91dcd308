export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off PATH=/opt/veriftools/go1.27.3/bin:$PATH
cd /verif/govc && go build -o /tmp/govc . && rm -r -f /tmp/dump && GOVC_DUMP=/tmp/dump timeout 900 /tmp/govc "$@"
