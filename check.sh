#!/bin/bash
# check.sh PROPERTY...: decides properties of /repo's working tree. check.sh --build only builds the checker.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root}
for d in /opt/veriftools/go1.27.3/bin; do [ -x "$d/go" ] && PATH=$d:$PATH; done
export PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
if ! mkdir -p "$GOCACHE" 2>/dev/null || ! [ -w "$GOCACHE" ]; then GOCACHE=$PWD/bin/cache; mkdir -p "$GOCACHE"; fi
mkdir -p bin evidence
(cd checker && GOFLAGS=-mod=vendor go build -o ../bin/checker .) || { echo "the checker does not build"; exit 2; }
[ "$1" = --build ] && exit 0
[ "$1" = --tests ] && { cd checker && GOFLAGS=-mod=vendor exec go test ./...; }
exec bin/checker -repo /repo -verif . -prop "$(IFS=,; echo "$*")"
