#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the analyzer (cached) and runs one check against /repo.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GO111MODULE=on GOSUMDB=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
REPO=${VERIF_REPO:-/repo}
bin=$(mktemp -d)
trap 'rm -rf "$bin"' EXIT
if ! (cd "$here/analyzer" && go build -o "$bin/verifcheck" . ) ; then
	echo "the analyzer could not be built" >&2
	exit 2
fi
cd "$here" && "$bin/verifcheck" -repo "$REPO" -verif "$here" -tier "$tier" "$prop"
