#!/bin/bash
# run.sh PROPERTY TIER: build the checker and decide one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
root=$PWD
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on
export PATH="$PATH:/usr/local/bin:/usr/local/go/bin"
mkdir -p "$root/bin" "$root/evidence"
out=$(cd checker && GOWORK=off GOFLAGS=-mod=vendor CGO_ENABLED=0 go build -o "$root/bin/checker" . 2>&1) || { echo "$out"; echo "checker does not build"; exit 2; }
[ "$1" = build ] && exit 0
exec "$root/bin/checker" -property "$1" -tier "${2:-quick}" -root "$root"
