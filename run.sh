#!/bin/bash
# usage: run.sh <property> quick|thorough            runs a check
#        run.sh <property> replay <file>             re-runs one recorded execution
# Builds the harness of the property together with /repo's current working tree and runs it.
# exit 0: held; exit 1 with a VIOLATION line: broken; anything else: the check itself failed.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?property}
shift
repo=${VERIF_REPO:-/repo}
export VERIF_DIR=$here VERIF_REPO=$repo
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=${CGO_ENABLED:-0}
export GOPATH=${GOPATH:-/root/go}
work=$(mktemp -d /tmp/verifmc.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
python3 "$here/tools/prepare.py" "$here" "$repo" "$id" "$work" || { echo "prepare failed"; exit 2; }
pkg=$(cat "$work/pkg")
export VERIF_WORK=$work
cd "$repo" || exit 2
if [ -f "$here/harness/$id/prebuild.sh" ]; then
  bash "$here/harness/$id/prebuild.sh" "$here" "$repo" "$work" || { echo "prebuild failed"; exit 2; }
fi
# shellcheck disable=SC2046
if ! go build -buildvcs=false -modfile="$work/go.mod" -overlay="$work/overlay.json" \
     $(cat "$work/buildflags" 2>/dev/null) -o "$work/check" "./$pkg" 2>"$work/build.log"; then
  cat "$work/build.log"
  echo "the harness of $id does not build against this tree"
  exit 2
fi
cd "$work" || exit 2
"$work/check" "$@" 2>"$work/stderr"
rc=$?
cat "$work/stderr" >&2
# a crash which no space could report (a fatal error of the runtime, a panic while the harness sets the code up): when
# the innermost function of this repository is not one of the harness, the code under test crashed, and that is a violation
case $rc in 0|1) ;; *)
  if python3 "$here/tools/crash.py" "$work/stderr"; then
    mkdir -p "$here/evidence"
    log=$here/evidence/$id.crash.log
    tail -c 20000 "$work/stderr" >"$log"
    echo "the code under test crashes while the harness of $id runs it, see $log"
    python3 "$here/tools/crash.py" evidence "$here" "$id" "${1:-quick}" "$log"
    echo "VIOLATION property=$id replay=$log"
    exit 1
  fi ;;
esac
case $rc in 0|1) exit $rc;; *) echo "check ended with $rc"; exit 2;; esac
