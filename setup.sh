#!/bin/bash
# Warms the Go build cache with the harness (offline). The checks build for themselves.
set -u
cd "$(dirname "$0")" || exit 1
if [ -d /opt/veriftools/go1.23.12 ]; then
	export GOROOT=/opt/veriftools/go1.23.12 PATH=/opt/veriftools/go1.23.12/bin:$PATH
fi
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GO111MODULE=on
S=$(mktemp -d)
trap 'rm -rf -- "$S"' EXIT
cp harness/go.mod harness/go.sum "$S/"
cd harness && go test -c -vet=off -modfile="$S/go.mod" -o "$S/a" . && go test -c -race -vet=off -modfile="$S/go.mod" -o "$S/b" .
