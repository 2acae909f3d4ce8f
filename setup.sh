#!/bin/bash
# warms the build cache; every check builds again from /repo's working tree
V=$(cd "$(dirname "$0")" && pwd)
B=$(mktemp -d /tmp/verif-build.XXXXXX) || exit 1
trap 'rm -rf "$B"' EXIT
"$V/tools/build.sh" "$B"
