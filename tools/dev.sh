#!/bin/bash
# development: build REPO (default /repo) translated under $OUT (default /tmp/b)
HERE=$(cd "$(dirname "$0")/.." && pwd); . "$HERE/tools/env.sh"
O=${OUT:-/tmp/b}
"$HERE/tools/translate.sh" "${1:-/repo}" "$O" >/dev/null && GOPATH=$O/sim:$HERE/sim go build -o "$O/simmain" simmain
