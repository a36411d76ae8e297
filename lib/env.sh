# Sourced by the check scripts.
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOPATH=/root/go GOCACHE=${GOCACHE:-/root/.cache/go-build}
export VERIF_DIR=${VERIF_DIR:-/verif} REPO_DIR=${REPO_DIR:-/repo}
