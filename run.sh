#!/bin/bash
# run.sh PROPERTY [quick|thorough] : build the harness against /repo's current
# working tree and run one check.   run.sh replay FILE : replay a violation.
set -u
OLD=$PWD
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
V=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/verifrun.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
cp -r "$V/harness" "$W/h" || exit 2
cd "$W/h" || exit 2
go run ./cmd/mkoverlay /repo "$W/ov" || { echo "overlay failed" >&2; exit 2; }
build() { go build -ldflags=-checklinkname=0 -overlay "$W/ov/overlay.json" "$@" -o "$W/check" ./cmd/vcheckbin || { echo "build failed" >&2; exit 2; }; }
# the race detector watches the code under test, not the harness
race() { build -race -gcflags='verifharness/...=-race=false -l' -gcflags=verifharness/vsync=-race -gcflags="verifharness/inst=-race -l"; }
prop=$1
[ "$1" = replay ] && F=$(cd "$OLD" && realpath "$2") && prop=$(grep -o '"property": *"[A-Z0-9]*"' "$F" | head -1 | grep -o '[A-Z][0-9]*')
case $prop in
build) build; race; exit 0 ;;
C01 | S05 | S06 | S09) race ;;
*) build ;;
esac
cd "$V" || exit 2
if [ "$1" = replay ]; then
  "$W/check" -replay "$F"; exit $?
fi
"$W/check" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -verif "$V" ${3:+-only "$3"}
exit $?
