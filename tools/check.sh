#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Translates /repo's working tree (SIM_REPO overrides it), builds the simulator
# around it and searches for violations of PROPERTY.
# Exit 0: held on everything explored. 1: violation (VIOLATION line). 2/3: the check itself failed.
HERE=$(cd "$(dirname "$0")/.." && pwd)
export SIM_GOCACHE=${SIM_GOCACHE:-$HERE/.build/gocache}
. "$HERE/tools/env.sh"
PROP=$1; TIER=${2:-${VERIF_TIER:-quick}}
REPO=${SIM_REPO:-/repo}
W=$(mktemp -d "${TMPDIR:-/tmp}/simcheck.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
[ -x "$HERE/.build/simgo" ] && cp -p "$HERE/.build/simgo" "$W/simgo"
if ! "$HERE/tools/translate.sh" "$REPO" "$W" >"$W/translate.log" 2>&1; then
  echo "check.sh: translation failed" >&2; tail -30 "$W/translate.log" >&2; exit 2
fi
if ! GOPATH="$W/sim:$HERE/sim" go build -o "$W/simmain" simmain >"$W/build.log" 2>&1; then
  echo "check.sh: build failed" >&2; tail -30 "$W/build.log" >&2; exit 2
fi
cd "$W" || exit 2
"$W/simmain" check "$PROP" "$TIER" "$HERE"
rc=$?
exit $rc
