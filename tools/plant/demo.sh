#!/bin/bash
# Runs the demonstration beside this script against the source tree in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
. /opt/vp/env.sh
cd "$R" || exit 2
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
{
	echo '{"Replace": {'
	sep=
	for f in "$D"/*_test.go; do
		printf '%s"%s/PKGDIR/zz_%s": "%s"\n' "$sep" "$R" "$(basename "$f")" "$f"
		sep=,
	done
	echo '}}'
} > "$W/overlay.json"
go test RACE-vet=off -count=1 -timeout 240s -overlay "$W/overlay.json" -run 'TestDemo' ./PKGDIR
