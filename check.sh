#!/bin/bash
# check.sh ID [TIER [SUB [SCALE]]]   run the check of one property (TIER defaults to $VERIF_TIER or quick)
# check.sh replay FILE               re-run one saved case
# Builds the harness and the commands from /repo's working tree, offline.
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOSUMDB=off GOFLAGS=-mod=mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOPATH=${GOPATH:-/root/go}
mkdir -p "$VERIF/.work"
W=$(mktemp -d "$VERIF/.work/run.XXXXXX") || exit 3
trap 'rm -rf "$W"' EXIT

fail() { echo "check error: $*" >&2; exit 3; }

# As build.sh: y.go is replaced by goyacc's output when asn1.y was edited and y.go was not.
OV=
same() { [ "$(sha256sum < "$REPO/$1")" = "$(cat "/opt/vp/base/$1.sha256" 2>/dev/null)" ]; }
if [ -f "$REPO/asn1.y" ] && [ -f "$REPO/y.go" ] && [ -f /opt/vp/base/y.go.sha256 ] && ! same asn1.y && same y.go; then
  (cd "$W" && cp "$REPO/asn1.y" asn1.y && /opt/vp/bin/goyacc -o y.go -v y.output asn1.y) >"$W/yacc.log" 2>&1 || { cat "$W/yacc.log" >&2; fail "goyacc failed"; }
  echo "{\"Replace\": {\"$REPO/y.go\": \"$W/y.go\"}}" > "$W/overlay.json"
  OV="-overlay=$W/overlay.json"
fi

sed "s#=> /repo#=> $REPO#" "$VERIF/harness/go.mod" > "$W/go.mod"
cp "$VERIF/harness/go.sum" "$W/go.sum"
cd "$VERIF/harness" || exit 3
B="go build $OV -modfile=$W/go.mod"
$B -o "$W/vh" . || fail "harness does not build against $REPO"
$B -o "$W/asn1go" github.com/chemikadze/asn1go/cmd/asn1go || fail "asn1go does not build"
$B -o "$W/ws2bin" github.com/chemikadze/asn1go/cmd/ws2bin || fail "ws2bin does not build"
# export data of the packages generated code may use, for go/types and for compiling generated code
go list -modfile="$W/go.mod" -export -deps -f '{{if .Export}}packagefile {{.ImportPath}}={{.Export}}{{end}}' encoding/asn1 encoding/json math/big math time reflect bufio fmt os strconv strings bytes > "$W/importcfg" || fail "go list -export failed"
ID=$1
if [ "$ID" = C10 ] || grep -q '"C10"' "$2" 2>/dev/null; then
  CGO_ENABLED=1 $B -race -o "$W/vh-race" . || fail "race build failed"
  export VH_RACE=$W/vh-race
fi
export VH_SELF=$W/vh VH_ASN1GO=$W/asn1go VH_WS2BIN=$W/ws2bin VH_REPO=$REPO VH_SCRATCH=$W VH_IMPORTCFG=$W/importcfg
cd "$VERIF" || exit 3
if [ "$ID" = replay ]; then
  "$W/vh" replay "$2"; exit $?
fi
if [ -z "$ID" ] || [ "$ID" = build ]; then exit 0; fi
SEED=${VERIF_SEED:-1}
TIER=${2:-${VERIF_TIER:-quick}}
"$W/vh" check "$ID" "$TIER" "$SEED" "$VERIF" "$W" ${3:+"$3"} ${4:+"$4"}
