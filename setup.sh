#!/bin/bash
# Builds the analyzer once, so that the checks find its packages in the build cache.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GO111MODULE=on GOSUMDB=off
cd "$here/analyzer" && go build -o /dev/null .
