#!/bin/bash
# Runs steps.sh with the commands built from the current directory, in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS=-mod=mod
cp "$R/go.mod" "$T/go.mod" && cp "$R/go.sum" "$T/go.sum" 2>/dev/null
go build -modfile="$T/go.mod" -o "$T/asn1go" ./cmd/asn1go || exit 2
go build -modfile="$T/go.mod" -o "$T/ws2bin" ./cmd/ws2bin || exit 2
cd "$T" && . "$D/steps.sh"
