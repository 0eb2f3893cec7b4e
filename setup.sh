#!/bin/bash
# Warms the build cache; every check also builds all it needs by itself.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0 GOPATH=${GOPATH:-/root/go}
work=$(mktemp -d /tmp/verifmc.XXXXXX) || exit 0
trap 'rm -rf "$work"' EXIT
python3 "$here/tools/prepare.py" "$here" /repo C19 "$work" || exit 0
cd /repo && go build -buildvcs=false -modfile="$work/go.mod" -overlay="$work/overlay.json" ./... >/dev/null 2>&1
mkdir -p "$here/evidence"
exit 0
