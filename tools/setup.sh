#!/bin/bash
# Builds the translator and warms the build cache (setup_cmd). Checks also work without it.
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd)
export SIM_GOCACHE=${SIM_GOCACHE:-$HERE/.build/gocache}
. "$HERE/tools/env.sh"
mkdir -p "$HERE/.build"
GOPATH="$HERE/sim" go build -o "$HERE/.build/simgo" simgo
W=$(mktemp -d "${TMPDIR:-/tmp}/simsetup.XXXXXX")
trap 'rm -rf "$W"' EXIT
cp -p "$HERE/.build/simgo" "$W/simgo"
"$HERE/tools/translate.sh" "${SIM_REPO:-/repo}" "$W"
GOPATH="$W/sim:$HERE/sim" go build -o "$W/simmain" simmain
echo "setup ok"
