#!/bin/bash
# builds the verifier offline
set -e
V=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0
export PATH=$PATH:/usr/local/go/bin HOME=${HOME:-/root}
mkdir -p "$V/bin" "$V/evidence"
cd "$V/govc" && go build -o "$V/bin/govc" .
