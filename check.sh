#!/bin/bash
# check.sh ID: rebuilds the simulator from /repo's working tree and decides property ID.
# exit 0: held on everything explored; 1: violated (VIOLATION line); 2: could not run.
set -u
ID=$1
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
. "$V/tools/params.sh" "$ID" "$VERIF_TIER"
B=$(mktemp -d /tmp/verif-build.XXXXXX) || exit 2
export TMPDIR=$B/tmp; mkdir -p "$TMPDIR"
trap 'rm -rf "$B"' EXIT
if ! "$V/tools/build.sh" "$B" >"$B/build.log" 2>&1; then
	echo "the simulator cannot be built from /repo:"; tail -30 "$B/build.log"
	exit 2
fi
mkdir -p "$V/evidence" "$V/evidence/replays"
"$B/sim" check -prop "$ID" -seed "$VERIF_SEED" -tier "$VERIF_TIER" -n "$N" -cap "$CAP" -workers 8 \
	-known "$V/known_findings.json" -replays "$V/evidence/replays" -evidence "$V/evidence/$ID.json" -sites "$B/sites.json"
