#!/bin/bash
# build.sh REPO OUTDIR MACHINES [mem|nomem] [TAG]
#
# Instrument REPO's working tree into OUTDIR/src and build the simulation
# harness with the given machines (comma-separated build tags) against it, as
# OUTDIR/harness. Exit 2 if that fails. Everything is written below OUTDIR.
set -u
repo=$1 out=$2 machines=$3 mem=${4:-nomem} tag=${5:-}
root=$(cd "$(dirname "$0")/.." && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=mod
[ -d /opt/veriftools/go1.27.3/bin ] && PATH=/opt/veriftools/go1.27.3/bin:$PATH
mkdir -p "$out"
log=$out/build.log
: >"$log"
if [ -z "${INSTRUMENT:-}" ]; then
  INSTRUMENT=$out/instrument
  (cd "$root/sim" && go build -o "$INSTRUMENT" ./cmd/instrument) >>"$log" 2>&1 || { cat "$log" >&2; exit 2; }
fi
build() { # build EXTRA-INSTRUMENT-ARGS...
  [ -d "$out/src" ] && find "$out/src" -delete
  cp "$repo/go.mod" "$out/repo.mod"
  cp "$repo/go.sum" "$out/repo.sum"
  GOFLAGS="-mod=mod -modfile=$out/repo.mod" \
    "$INSTRUMENT" -src "$repo" -out "$out/src" -tags "$tag" "$@" >>"$log" 2>&1 || return 1
  printf '\nrequire fsim v0.0.0\nreplace fsim => %s\n' "$root/sim" >>"$out/src/go.mod"
  {
    echo 'module fsim'
    echo 'go 1.24'
    echo 'require github.com/arr-ai/frozen v0.0.0'
    awk '/^require \(/{f=1;next} /^\)/{f=0} f{print "require " $0} /^require [^(]/{print}' "$repo/go.mod"
    echo "replace github.com/arr-ai/frozen => $out/src"
  } >"$out/harness.mod"
  cp "$repo/go.sum" "$out/harness.sum"
  (cd "$root/sim" && go build -tags "$tag,$machines" -modfile "$out/harness.mod" \
    -gcflags='fsim/harness=-l -dwarf=false' -ldflags='-s -w' \
    -o "$out/harness" ./harness) >>"$log" 2>&1
}
if [ "$mem" = mem ]; then
  if build; then echo mem >"$out/mode"; exit 0; fi
  echo "--- instrumentation of memory accesses failed" >>"$log"
fi
if build -nomem; then echo nomem >"$out/mode"; exit 0; fi
cat "$log" >&2
exit 2
