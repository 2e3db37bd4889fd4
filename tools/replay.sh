#!/bin/bash
# usage: replay.sh REPLAY.json - runs one recorded violation against /repo's working tree
# (SIM_REPO overrides it) and prints its trace; exit 1: it occurred again.
HERE=$(cd "$(dirname "$0")/.." && pwd)
export SIM_GOCACHE=${SIM_GOCACHE:-$HERE/.build/gocache}
. "$HERE/tools/env.sh"
F=$(realpath "$1") || exit 2
W=$(mktemp -d "${TMPDIR:-/tmp}/simreplay.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
[ -x "$HERE/.build/simgo" ] && cp -p "$HERE/.build/simgo" "$W/simgo"
"$HERE/tools/translate.sh" "${SIM_REPO:-/repo}" "$W" >/dev/null || exit 2
GOPATH="$W/sim:$HERE/sim" go build -o "$W/simmain" simmain || exit 2
"$W/simmain" replay "$F"
