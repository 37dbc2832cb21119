#!/bin/bash
# replay.sh FILE: re-executes a violation's replay file against /repo's working tree.
# Exit 1: reproduced exactly. 4: same kind, different execution. 0: gone.
f=$(realpath "$1") || exit 2
cd "$(dirname "$0")" || exit 2
export MSIM_ROOT="$PWD"
bin=$(sim/build.sh) || exit 2
exec "$bin" replay "$f" "${@:2}"
