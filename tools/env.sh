export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off PATH=/opt/veriftools/go1.27.3/bin:$PATH
