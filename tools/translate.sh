#!/bin/bash
# usage: translate.sh REPO OUTDIR - translate REPO's working tree into OUTDIR/sim (a GOPATH)
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd)
. "$HERE/tools/env.sh"
REPO=$1; OUT=$2
ROOT=github.com/qbeon/webwire-go
mkdir -p "$OUT"
if [ ! -d "$GOCACHE" ]; then
  mkdir -p "$(dirname "$GOCACHE")"
  if [ -d /opt/vp/gocache ]; then cp -r /opt/vp/gocache "$GOCACHE.tmp.$$" && mv "$GOCACHE.tmp.$$" "$GOCACHE"; fi
fi
rm -rf "$OUT/orig" "$OUT/sim"
mkdir -p "$OUT/orig/src/$ROOT"
(cd "$REPO" && find . -path ./.git -prune -o -type f -name '*.go' ! -name '*_test.go' -print0 | tar --null -T - -cf -) | tar -C "$OUT/orig/src/$ROOT" -xf -
if [ ! -x "$OUT/simgo" ] || [ "$HERE/sim/src/simgo/main.go" -nt "$OUT/simgo" ]; then
  GOPATH="$HERE/sim" go build -o "$OUT/simgo" simgo
fi
"$OUT/simgo" -gopath "$OUT/orig" -root "$ROOT" -out "$OUT/sim"
