#!/bin/bash
# Sanity check of the tool chain: build the instrumenter offline, into a
# directory that is removed again. Every check builds what it needs itself,
# because it runs in a fresh copy of the sandbox.
set -eu
root=$(cd "$(dirname "$0")/.." && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=mod
[ -d /opt/veriftools/go1.27.3/bin ] && PATH=/opt/veriftools/go1.27.3/bin:$PATH
mkdir -p "$root/.work"
d=$(mktemp -d "$root/.work/setup.XXXXXX")
trap 'find "$d" -delete' EXIT
cd "$root/sim"
go vet ./simrt/... >/dev/null 2>&1 || true
go build -o "$d/instrument" ./cmd/instrument
"$d/instrument" -h 2>/dev/null || true
echo ready
