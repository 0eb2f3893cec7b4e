#!/bin/bash
# usage: instr.sh HERE REPO WORK DIR...   instruments the packages (relative to the repository)
set -eu
here=$1 repo=$2 work=$3
shift 3
mkdir -p "$work/instr"
(cd "$here/tools/instr" && GOFLAGS=-mod=mod go build -buildvcs=false -o "$work/instrbin" .)
dirs=()
for d in "$@"; do dirs+=("$repo/$d"); done
"$work/instrbin" "$work/instr" github.com/indigo-web/indigo/internal/verifmc/${VSCHED:-vsched} "$work/overlay.json" "${dirs[@]}"
