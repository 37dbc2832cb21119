#!/bin/bash
# check.sh ID [quick|thorough]: builds the simulator against /repo's working tree and decides one property.
cd "$(dirname "$0")" || exit 2
export MSIM_ROOT="$PWD"
tier="${2:-${VERIF_TIER:-quick}}"
bin=$(sim/build.sh) || { echo "check.sh: the simulator does not build against /repo" >&2; exit 2; }
mkdir -p evidence replays
exec "$bin" check "$1" "$tier"
