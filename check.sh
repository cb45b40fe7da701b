#!/bin/bash
# check.sh <property> [quick|thorough]: builds what it needs from /repo's working tree, then searches
cd "$(dirname "$0")" || exit 2
P="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
case "$P" in C08|C09|C10|C11|C12|C13|C14) L=lib;; *) L=;; esac
bash sim/build.sh $L || { echo "build failed"; exit 2; }
exec target/driver/release/simdrv check "$P" --tier "$TIER" --seed "${VERIF_SEED:-1}" --dir "$PWD/target" --verif "$PWD"
