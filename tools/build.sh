#!/bin/bash
# build.sh DIR: builds the simulator DIR/sim from /repo's working tree plus /verif's sources.
# /repo itself is not written to: instrumented copies lie in DIR and enter through -overlay.
set -e
B=$1
R=${VERIF_REPO:-/repo} # another copy only while developing
V=$(cd "$(dirname "$0")/.." && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly HOME=${HOME:-/root}
mkdir -p "$B"
(cd "$V/tools/instrument" && go build -o "$B/instrument" .)
"$B/instrument" -repo "$R" -out "$B" -sim "$V/sim" -simrt "$V/simrt"
cd "$R" && go build -overlay "$B/overlay.json" -o "$B/sim" ./zz_verif/sim
