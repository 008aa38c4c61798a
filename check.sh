#!/bin/bash
# check.sh ID quick|thorough        decides property ID on /repo's working tree
# check.sh ID replay FILE           replays a violation
# Exit 0: held. 1: violation. 3: the check could not give an answer.
set -u
HERE=$(cd "$(dirname "$0")" && pwd); ID=$1; TIER=${2:-quick}
W=$HERE/.work/$ID; T=cli; case $ID in C13) T="api race";; C15) T=api;; esac
bash "$HERE/build.sh" "$W" $T || exit 3
run() { node --expose-gc "$HERE/sim/main.mjs" --prop "$ID" --build "$W" "$@"; }
case $TIER in
  replay) run --replay "$(realpath "$3")";;
  *) run --tier "$TIER" --seed "${VERIF_SEED:-1}";;
esac
R=$?; case $R in 0|1) exit $R;; *) exit 3;; esac
