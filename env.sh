export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} LANG=C.UTF-8
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod CGO_ENABLED=0
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GOROOT GOWORK
