#!/bin/bash
# Builds the simulator against /repo's current working tree. Prints the binary's path.
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="${MSIM_TARGET:-$PWD/target}"
export RUSTC_WRAPPER="$PWD/rustc-wrap.sh"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WORKSPACE_WRAPPER
mkdir -p "$CARGO_TARGET_DIR"
if ! cargo build --release --offline >"$CARGO_TARGET_DIR/build.log" 2>&1; then
  tail -40 "$CARGO_TARGET_DIR/build.log" >&2
  exit 3
fi
echo "$CARGO_TARGET_DIR/release/msim"
