#!/bin/bash
# check.sh <property> [quick|thorough]   decide one property on $repo's working tree
# check.sh build                         only build
# check.sh replay <file>                 repeat a recorded violation
# Builds in a scratch directory that is removed at the end.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$here" || exit 3
repo=${MC_REPO:-/repo}
export MC_VERIF="$here" MC_REPO="$repo"
W=$(mktemp -d /tmp/mapl-mc.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
export TMPDIR="$W"
mkdir "$W/mc" && cp "$here"/mc/*.go "$W/mc/" || exit 3
{ sed -e 's#^module .*#module maplmc#' -e 's#^go .*#go 1.22#' $repo/go.mod
  printf 'require github.com/octarinesec/MAPL v0.0.0\nreplace github.com/octarinesec/MAPL => %s\n' "$repo"; } > "$W/mc/go.mod"
cp $repo/go.sum "$W/mc/go.sum"
mkdir "$W/instr" && cp "$here"/instr/*.go "$W/instr/" && printf 'module instr\ngo 1.22\n' > "$W/instr/go.mod" || exit 3
cd "$W/instr" && go build -o "$W/instrbin" . || { echo "build failed"; exit 3; }
# build <binary> <instr flag> [go flags]: with map orders (and scheduling points) under control if possible
build() {
  local out=$1 flag=$2; shift 2
  "$W/instrbin" $flag $repo "$W/ov-${out##*/}" || exit 3
  cd "$W/mc" || exit 3
  go build "$@" -overlay "$W/ov-${out##*/}/overlay.json" -o "$out" . 2> "$W/build.err" && return
  echo "not instrumented: $(head -3 "$W/build.err")"
  "$W/instrbin" -plain $repo "$W/ov-${out##*/}" || exit 3
  go build "$@" -overlay "$W/ov-${out##*/}/overlay.json" -o "$out" . || { echo "build failed"; exit 3; }
}
build "$W/mcbin" ""
export MC_YIELD_BIN="$W/mcyield" MC_RACE_BIN="$W/mcrace"
case "$*" in *C23*)
  build "$W/mcyield" -yield
  build "$W/mcrace" -yield -race;;
esac
cd "$here" || exit 3
case "$1" in
  build) echo built; exit 0;;
  replay) "$W/mcbin" replay "$2"; exit $?;;
  lits) "$W/mcbin" lits; exit $?;;
esac
"$W/mcbin" run "$1" "${2:-${VERIF_TIER:-quick}}"
exit $?
