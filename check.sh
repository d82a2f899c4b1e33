#!/bin/bash
# check.sh ID            run the check of a property (VERIF_TIER, VERIF_SEED)
# check.sh --replay FILE run the job stored in a replay file again
# check.sh --build DIR   only build the two binaries into DIR
# Builds the harness from the current working tree of VERIF_REPO (default
# /repo) in a scratch directory, once plainly and once with the race detector.
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOWORK=off GOTOOLCHAIN=local GOFLAGS=-buildvcs=false GOPROXY=off CGO_ENABLED=1
repo=${VERIF_REPO:-/repo}
export VERIF_REPO=$repo VERIF_DIR=${VERIF_DIR:-$here}
scratch=$(mktemp -d "${TMPDIR:-/tmp}/vcheck.XXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
dir=$scratch
if [ "${1:-}" = --build ]; then dir=$2; mkdir -p "$dir"; fi
sed "s|=> /repo|=> $repo|" "$here/harness/go.mod" > "$scratch/go.mod"
: > "$scratch/go.sum"
cd "$here/harness" || exit 2
build() { go build -modfile "$scratch/go.mod" "$@" ./vrun > "$scratch/log.$1" 2>&1 || { cat "$scratch/log.$1"; return 1; }; }
build -o "$dir/vrun" & a=$!
build -race -o "$dir/vrun_race" & b=$!
wait $a || bad=1
wait $b || bad=1
if [ -n "${bad:-}" ]; then echo "check.sh: build failed"; exit 2; fi
export VRUN_BIN=$dir/vrun VRUN_RACE=$dir/vrun_race
cd "$scratch" || exit 2
case ${1:-} in
--build) exit 0 ;;
--replay) f=$(cd "$here" && realpath "$2"); "$VRUN_BIN" replay "$f" ;;
*) "$VRUN_BIN" check "$1" ;;
esac
