#!/bin/bash
# check.sh ID            run the check of property ID against /repo's working tree
# check.sh --replay FILE re-run one recorded case
# VERIF_SEED and VERIF_TIER are read from the environment.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
export PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} LANG=C.UTF-8 LC_ALL=C.UTF-8
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly CGO_ENABLED=1 GOSUMDB=off
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
tmp=$(mktemp -d /tmp/vf-build.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
t0=$(date +%s.%N)
id=$1
[ "$1" = --replay ] && id=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
race=
case " $(cat "$here/race_ids" 2>/dev/null) " in *" $id "*) race=-race ;; esac
(cd "$here/harness" && go build $race -o "$tmp/harness" .) || { echo "ERROR: build failed" >&2; exit 2; }
case " $(cat "$here/cli_ids" 2>/dev/null) " in *" $id "*)
  (cd /repo && GOFLAGS=-mod=mod go build -o "$tmp/golisp" ./main) || { echo "ERROR: build of main failed" >&2; exit 2; }
  export VERIF_GOLISP="$tmp/golisp" ;;
esac
export VERIF_BUILD_S=$(awk "BEGIN{print $(date +%s.%N)-$t0}")
if [ "$1" = --replay ]; then "$tmp/harness" replay "$2" "${3:-1}"; else "$tmp/harness" drive "$1"; fi
