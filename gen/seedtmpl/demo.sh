#!/bin/bash
# Runs main.go against the gologix of the current directory: exit 0 when the
# property holds, nonzero when it does not.
set -u
REPO=$(pwd)
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
cp -r "$D"/. "$W"/
cd "$W" || exit 3
{ echo "module demo"; echo "go 1.24"; echo "require github.com/danomagnum/gologix v0.0.0"; echo "replace github.com/danomagnum/gologix => $REPO"; } > go.mod
cp "$REPO/go.sum" go.sum
go build -o demo . || exit 4
timeout 120 ./demo
