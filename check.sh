#!/bin/bash
# Builds the analyser from source and decides one property of /repo.
# usage: check.sh <property> quick|thorough
cd "$(dirname "$0")" || exit 1
root=$PWD
fail() {
	echo "$1"
	echo "VIOLATION property=$prop replay=-"
	exit 1
}
prop=$1 tier=${2:-quick}
go=
for v in 1.27.3 1.26.10; do
	[ -x "/opt/veriftools/go$v/bin/go" ] && go=/opt/veriftools/go$v && break
done
[ -n "$go" ] || fail "no Go toolchain to build the analyser with"
export PATH=$go/bin:$PATH GOROOT= GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
unset GOROOT
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
bin=$(mktemp -d /tmp/mockeycheck.XXXXXX) || fail "no scratch directory"
trap 'rm -rf "$bin"' EXIT
(cd checker && go build -o "$bin/mockeycheck" ./cmd/mockeycheck) || fail "the analyser does not build"
[ "$prop" = --build ] && exit 0
MOCKEYCHECK_ROOT=$root "$bin/mockeycheck" "$prop" "$tier"
rc=$?
[ $rc -eq 0 ] || [ $rc -eq 1 ] || fail "the analyser stopped with status $rc"
exit $rc
