#!/bin/bash
# replay.sh FILE [trace]: rebuilds from /repo and re-executes a replay file; exit 1 if the violation shows again
V=$(cd "$(dirname "$0")" && pwd)
B=$(mktemp -d /tmp/verif-build.XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
"$V/tools/build.sh" "$B" >/dev/null || exit 2
"$B/sim" replay "$@"
