# Sourced by every script here. Offline, GOPATH mode, nothing outside /verif,
# the scratch directory and the Go build cache is written.
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_DIR
export GO111MODULE=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off GOPATH=$VERIF_DIR CGO_ENABLED=1
unset GOROOT GOOS GOARCH GODEBUG GORACE GOMAXPROCS
export HOME=${HOME:-/root}
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
