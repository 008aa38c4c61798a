#!/bin/bash
# Builds the simulated tool from /repo's working tree: build.sh OUTDIR [cli] [api] [race]
# Any failure here is an error of the check (exit 3), never a verdict.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$1"; OUT=$(cd "$1" && pwd); shift
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root}
GOROOT=${VERIF_GOROOT:-/opt/veriftools/go1.27.3}; export GOROOT GOTOOLCHAIN=local PATH=$GOROOT/bin:$PATH
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build} GOENV=off GOWORK=off GOPROXY=off GOSUMDB=off CGO_ENABLED=0
fail() { echo "build.sh: $*" >&2; exit 3; }
mkdir -p "$OUT" || fail mkdir
export GOFLAGS="-mod=mod -buildvcs=false"
(cd "$HERE/tools/instrument" && go build -o "$OUT/instrument" .) || fail "instrument"
want() { case " $* " in *" $W "*) return 0;; esac; return 1; }
for W in "$@"; do case $W in
cli|api)
  T=.; [ $W = api ] && T=./verifsim/apisim
  for SPLIT in -split -split=false; do # if the code cannot be built with its updates taken apart: without
    mkdir -p "$OUT/wasm"; "$OUT/instrument" $SPLIT -repo "$REPO" -out "$OUT/wasm" -goroot "$GOROOT" -harness "$HERE/harness" || fail "instrumenting"
    (cd "$REPO" && GOOS=wasip1 GOARCH=wasm go build -trimpath -ldflags='-s -w' -overlay "$OUT/wasm/overlay.json" -o "$OUT/$W.wasm" $T) && continue 2
  done
  fail "wasm build of $W";;
race)
  mkdir -p "$OUT/race"; "$OUT/instrument" -native -repo "$REPO" -out "$OUT/race" -goroot "$GOROOT" -harness "$HERE/harness" || fail "overlay"
  (cd "$REPO" && CGO_ENABLED=1 go build -race -trimpath -overlay "$OUT/race/overlay.json" -o "$OUT/apirace" ./verifsim/apisim) || fail "race build";;
esac; done
