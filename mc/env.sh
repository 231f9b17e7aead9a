# Toolchain of the model checker (controlled runtime, see DESIGN.md).
export HOME=${HOME:-/root}
export GOROOT=/opt/veriftools/go1.25.14 GOTOOLCHAIN=local
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
