#!/bin/bash
# replay.sh <file> [--trace]: executes a replay file against the current tree: exit 1 when it shows the violation
F="$(realpath "$1")"; shift
cd "$(dirname "$0")" || exit 2
bash sim/build.sh lib || { echo "build failed"; exit 2; }
exec target/driver/release/simdrv replay "$F" --dir "$PWD/target" --verif "$PWD" "$@"
