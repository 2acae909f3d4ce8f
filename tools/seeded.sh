#!/bin/bash
# seeded.sh [NAME...]: runs each planted change's own check against it, in scratch copies of
# /repo (development aid; the registered checks read /repo itself). Prints caught or missed.
V=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/verif-seeded.XXXXXX)
trap 'rm -rf "$W"' EXIT
[ $# -gt 0 ] || set -- $(ls "$V/seeded")
for n in "$@"; do
	S=$V/seeded/$n
	P=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$S/meta.json")
	rm -rf "$W/repo"; cp -a /repo "$W/repo"
	git -C "$W/repo" apply "$S/patch.diff" || { echo "$n $P DOES NOT APPLY"; continue; }
	mkdir -p "$W/v"; rm -rf "$W/v"; mkdir "$W/v"
	cp -a "$V/check.sh" "$V/tools" "$V/sim" "$V/simrt" "$V/known_findings.json" "$W/v/"
	t=$(date +%s)
	VERIF_REPO=$W/repo "$W/v/check.sh" "$P" >"$W/out" 2>&1
	rc=$?
	echo "$n $P rc=$rc $(($(date +%s)-t))s $(grep -m1 -A1 '^VIOLATION' "$W/out" | cut -c1-200 | tr '\n' ' ')"
	[ $rc = 2 ] && tail -5 "$W/out"
done
