#!/bin/bash
# Runs the test TestSeeded of demo_test.go.txt as an external test of the package in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS=-mod=mod
cp "$R/go.mod" "$T/go.mod" && cp "$R/go.sum" "$T/go.sum" 2>/dev/null
echo "{\"Replace\": {\"$R/zz_seeded_test.go\": \"$D/demo_test.go.txt\"}}" > "$T/overlay.json"
go test -overlay "$T/overlay.json" -modfile="$T/go.mod" -vet=off -count=1 -timeout 120s -run '^TestSeeded$' .
