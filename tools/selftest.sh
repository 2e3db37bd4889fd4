#!/bin/bash
# Translator self test: a program translated to the simulator must print what it
# prints natively, and repeat exactly.
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd); . "$HERE/tools/env.sh"
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cp -r "$HERE/sim/selftest/." "$T/"
(cd "$T" && GOPATH=$T go run ex > want && GOPATH=$HERE/sim go build -o simgo simgo && ./simgo -gopath "$T" -root ex -out "$T/o" &&
 GOPATH=$T/o:$T/h:$HERE/sim go build -o sm simmain && ./sm > got 2> err; diff want got; ! grep NONDET err; echo "selftest ok")
