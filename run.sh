#!/bin/bash
# bash run.sh <property> [quick|thorough] [extra arguments of the check]
# Builds the check of one property from the tree under check (REPO, default /repo) and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
if [ $# -gt 0 ] && { [ "$1" = quick ] || [ "$1" = thorough ]; }; then export VERIF_TIER=$1; shift; fi
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1} VERIF_DIR=$here
unset TRAJOPT_CONVEX_SOLVER TRAJOPT_LOG_THRESH
export TRAJOPT_LOG_THRESH=FATAL
repo=${REPO:-/repo}
build=${VERIF_BUILD:-$here/build}
mkdir -p "$build"
log=$build/$id.log
export CC=/usr/bin/gcc CXX=/usr/bin/g++
if ! { cmake -S "$here/harness" -B "$build" -G Ninja -DREPO="$repo" && ninja -C "$build" "$id"; } >"$log" 2>&1; then
  echo "BUILD-ERROR $id"; tail -40 "$log"; exit 2
fi
exec "$build/bin/$id" --tier "$VERIF_TIER" "$@"
