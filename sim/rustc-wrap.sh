#!/bin/bash
# Cargo's RUSTC_WRAPPER: compiles the code under simulation with the thread-sanitizer pass
# (memory accesses become calls) but without its runtime; ours is in src/rt.rs.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
common=(-Cunsafe-allow-abi-mismatch=sanitizer)
inst=(-Crelocation-model=static -Zsanitizer=thread -Zexternal-clangrt -Zshare-generics=n -Ctarget-feature=+cmpxchg16b
      -Cllvm-args=-tsan-instrument-func-entry-exit=0)
case "$name" in
  portable_atomic)
    exec "$rustc" "$@" "${common[@]}" "${inst[@]}" --cfg portable_atomic_sanitize_thread ;;
  masstree|seize|parking_lot|parking_lot_core|lock_api|scopeguard|subject)
    exec "$rustc" "$@" "${common[@]}" "${inst[@]}" ;;
  msim)
    exec "$rustc" "$@" "${common[@]}" -Crelocation-model=static ;;
  *)
    exec "$rustc" "$@" "${common[@]}" ;;
esac
