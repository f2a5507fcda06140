#!/bin/bash
# Warms the Go build cache; every check builds what it needs by itself.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly CGO_ENABLED=1 GOSUMDB=off
cd "$here/harness" || exit 1
go build -o /dev/null . && go build -race -o /dev/null . 
