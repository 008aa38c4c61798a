#!/bin/bash
# seedtest.sh ID [CHECK...]: confirms the planted change seeded/ID in a scratch copy (builds,
# stable tests pass, demo passes without and fails with it), then runs the checks on the changed copy.
set -u
V=$(cd "$(dirname "$0")/.." && pwd); ID=$1; shift; D=$V/seeded/$ID
S=$(mktemp -d /tmp/seedtest.XXXXXX); trap 'rm -rf "$S"' EXIT
. /opt/vp/env.sh
cp -a "$D" "$S/demo"; rm -f "$S"/demo/*.diff "$S"/demo/meta.json
cp -a /repo "$S/repo"; cd "$S/repo" || exit 2
demo() { timeout 300 bash "$S/demo/demo.sh" >"$S/demo.out" 2>&1; }
[ "$(realpath /repo)" = /repo ] || exit 2
go build ./... || { echo "$ID: base build"; exit 2; }
demo; R0=$?; [ $R0 = 0 ] || tail -5 "$S/demo.out"
git apply "$D/patch.diff" || { echo "$ID: patch does not apply"; exit 2; }
go build ./... && go vet ./... >/dev/null 2>&1; B=$?
go test -count=1 ./... >"$S/test.out" 2>&1; T=$?
demo; R1=$?; [ $R1 != 0 ] || tail -5 "$S/demo.out"
echo "$ID: build=$B test=$T demo-base=$R0 demo-patched=$R1"
[ $T = 0 ] && [ $R0 = 0 ] && [ $R1 != 0 ] || { echo "$ID: NOT VALID"; tail -5 "$S/test.out"; exit 2; }
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ $# = 0 ] && set -- "$P"
[ "$1" = none ] && exit 0
# the checks see the patched copy as /repo, and write to a copy of /verif
mkdir "$S/verif"; tar -C "$V" --exclude=./seeded --exclude=./.work --exclude=./.git -cf - . | tar -C "$S/verif" -xf -
for C in "$@"; do
  O=$(VERIF_SEED=${VERIF_SEED:-1} unshare -rm sh -c "mount --bind $S/repo /repo && mount --bind $S/verif /verif && cd /verif && bash check.sh $C quick" 2>&1); R=$?
  echo "$ID: check $C exit=$R $(echo "$O" | grep -m1 VIOLATION)"; echo "$O" | grep -A3 VIOLATION | cut -c1-300 | sed -n 2,4p
  [ $R = 3 ] && echo "$O" | tail -5
done
