#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the simulator together with /repo's current working tree and searches for
# violations of one property. Exit 0: none; exit 1: VIOLATION line printed; else: error.
cd "$(dirname "$0")" || exit 2
bash ./build.sh >&2 || { echo "check.sh: the simulator does not build" >&2; exit 2; }
tier=${2:-${VERIF_TIER:-quick}}
export DST_ROOT="$PWD" VERIF_SEED="${VERIF_SEED:-1}"
# No evidence, no verdict: a main which does not enter the simulation must not count as a pass
rm -f "$DST_ROOT/evidence/$1.json"
target/debug/hir-dst check "$1" "$tier" < /dev/null
rc=$?
if [ $rc = 0 ] && [ ! -s "$DST_ROOT/evidence/$1.json" ]; then
    echo "check.sh: the simulation did not run" >&2
    exit 2
fi
exit $rc
