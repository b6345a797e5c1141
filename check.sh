#!/bin/bash
# usage: check.sh <property>   decides one property on /repo's current working tree
V=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0
export PATH=$PATH:/usr/local/go/bin HOME=${HOME:-/root}
mkdir -p "$V/bin"
out=$(cd "$V/govc" && go build -o "$V/bin/govc" . 2>&1) || { echo "$out"; [ -x "$V/bin/govc" ] || exit 2; }
exec "$V/bin/govc" -prop "$1" -tier "${VERIF_TIER:-quick}"
