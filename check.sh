#!/bin/bash
# Decides one property: ./check.sh Cxx [--replay FILE]
# exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict.
set -u
ID=$1; shift
REPLAY=""
[ "${1:-}" = "--replay" ] && REPLAY=$(realpath "$2")
ROOT=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}

if [ -d /opt/veriftools/go1.23.12 ]; then
	export GOROOT=/opt/veriftools/go1.23.12 PATH=/opt/veriftools/go1.23.12/bin:$PATH
fi
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GO111MODULE=on
unset KUBECONFIG KUBERNETES_SERVICE_HOST KUBERNETES_SERVICE_PORT CLUSTER_ROOT
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}

S=$(mktemp -d "${TMPDIR:-/tmp}/verif-$ID-XXXXXX")
trap 'rm -rf -- "$S"' EXIT
mkdir -p "$ROOT/evidence" "$ROOT/replays"
export VERIF_EVIDENCE=$ROOT/evidence/$ID.json VERIF_KNOWN=$ROOT/known_findings.txt
rm -f -- "$VERIF_EVIDENCE"

RACE=()
[ "$ID" = C17 ] && RACE=(-race)
cp "$ROOT/harness/go.mod" "$ROOT/harness/go.sum" "$S/"
if [ "$REPO" != /repo ]; then sed -i "s#=> /repo#=> $REPO#" "$S/go.mod"; fi
TRAVEL=() # most checks own the clock of their process
case $ID in
C20 | C22 | C23) ;; # about API clients, which pace themselves by it, and about other processes
*) read -ra TRAVEL < <(bash "$ROOT/travel/overlay.sh" "$S") ;;
esac
if ! (cd "$ROOT/harness" && go test -c "${RACE[@]}" "${TRAVEL[@]}" -vet=off -modfile="$S/go.mod" -o "$S/check.test" .) >"$S/build.log" 2>&1; then
	cat "$S/build.log"
	echo "check $ID: the harness does not build against $REPO"
	exit 2
fi

if [ "$ID" = C22 ] || [ "$ID" = C23 ]; then # the command itself is under test
	if ! (cd "$ROOT/harness" && go build -modfile="$S/go.mod" -o "$S/adapter" github.com/ibm-cloud-security/app-identity-and-access-adapter/cmd) >"$S/build.log" 2>&1; then
		cat "$S/build.log"
		echo "check $ID: the command does not build"
		exit 2
	fi
	export VERIF_BINARY=$S/adapter
fi

LIMIT=780
[ "$VERIF_TIER" = thorough ] && LIMIT=3300
mkdir -p "$S/cwd"
ARGS=(-test.run "^Test$ID\$" -test.timeout "${LIMIT}s" -test.count 1)
if [ -n "$REPLAY" ]; then
	case "$REPLAY" in
	*.fail)
		sub=$(basename "$REPLAY"); sub=${sub#Test"$ID"_}; sub=${sub%-*-*}
		ARGS=(-test.v -test.run "^Test$ID\$/^$sub\$" -rapid.failfile "$REPLAY" -test.timeout "${LIMIT}s")
		export VERIF_CHECKS=1 ;;
	*)
		VERIF_SEED=$(sed -n 's/^# VERIF_SEED=//p' "$REPLAY" | head -1)
		export VERIF_SEED ;;
	esac
fi
(cd "$S/cwd" && GORACE="halt_on_error=0 exitcode=66" timeout -k 5 $((LIMIT + 15)) "$S/check.test" "${ARGS[@]}") >"$S/log" 2>&1
rc=$?
grep -a '^KNOWN-FINDING:' "$S/log"
if [ $rc -eq 0 ] && { [ -n "$REPLAY" ] || [ -s "$VERIF_EVIDENCE" ]; }; then
	[ -n "$REPLAY" ] && grep -av ' draw ' "$S/log" | tail -40
	echo "property $ID held ($(grep -o '"evaluations": [0-9]*' "$VERIF_EVIDENCE" 2>/dev/null), seed $VERIF_SEED, $VERIF_TIER)"
	exit 0
fi
cut -c1-3000 "$S/log" | grep -av ' draw ' | head -150
verdict=""
if grep -aq -- "--- FAIL: Test$ID" "$S/log"; then
	verdict=violation
elif grep -aq 'WARNING: DATA RACE\|^panic: \|^fatal error: ' "$S/log" &&
	! grep -aq '^panic: test timed out' "$S/log" &&
	grep -aq 'app-identity-and-access-adapter/adapter' "$S/log"; then
	verdict=violation # the process died in, or raced through, the adapter
fi
if [ "$verdict" = violation ]; then
	OUT=$REPLAY
	if [ -z "$OUT" ]; then
		f=$(find "$S/cwd" -name '*.fail' | sort | head -1)
		if [ -n "$f" ]; then
			OUT=$ROOT/replays/$(basename "$f")
			cp "$f" "$OUT"
		else
			OUT=$ROOT/replays/$ID-seed$VERIF_SEED-$(date +%s).log
			{ echo "# VERIF_SEED=$VERIF_SEED"; cat "$S/log"; } >"$OUT"
		fi
	fi
	echo "VIOLATION property=$ID replay=$OUT"
	exit 1
fi
echo "check $ID: no verdict (exit $rc)"
exit 2
