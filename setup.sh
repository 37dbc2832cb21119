#!/bin/bash
# Builds the simulator from the committed files, and checks that one seed is one execution.
cd "$(dirname "$0")" || exit 2
export MSIM_ROOT="$PWD"
bin=$(sim/build.sh) || exit 2
exec "$bin" selftest 25
