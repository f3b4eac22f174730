# Sourced by the scripts: the toolchain that builds /repo, offline.
export HOME=${HOME:-/root} LANG=C.UTF-8 TZ=UTC
export GOROOT=/opt/veriftools/go1.24.13
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS= GOWORK=$VERIF/harness/go.work
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export VERIF_REPO=/repo
