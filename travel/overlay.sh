#!/bin/bash
# overlay.sh DIR: writes DIR/overlay.json, with which package time has a clock that can be set (shift.go).
# Prints the flags for go test; nothing if this Go's package time is not as expected.
D=$1
SRC=$(go env GOROOT)/src/time
[ "$(grep -c 'sec, nsec, mono := now()' "$SRC/time.go")" = 1 ] || exit 0
[ "$(grep -c 'runtimeNano()-startNano' "$SRC/time.go")" = 2 ] || exit 0
sed -e 's/sec, nsec, mono := now()/sec, nsec, mono := verifNow()/' -e 's/runtimeNano()-startNano/verifNano()-startNano/' "$SRC/time.go" >"$D/time.go" || exit 0
cp "$(dirname "$0")/shift.go" "$D/shift.go" || exit 0
printf '{"Replace": {"%s/time.go": "%s/time.go", "%s/verif_shift.go": "%s/shift.go"}}\n' "$SRC" "$D" "$SRC" "$D" >"$D/overlay.json" || exit 0
echo "-tags=travel -overlay=$D/overlay.json"
