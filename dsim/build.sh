#!/bin/bash
# build.sh [VARIANT...]: builds variants of the simulator (all of them by default) from /repo's current working tree
# into /verif/target.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=nightly-2025-03-06 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target
unset CARGO_BUILD_RUSTFLAGS
export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -C relocation-model=static -Zshare-generics=n -C force-frame-pointers=no"
[ $# = 0 ] && set -- debug release small safe
for v in "$@"; do
  case $v in
    debug) o= ;;
    release) o=--release ;;
    small) o="--profile small --no-default-features --features small" ;;
    safe) o="--profile safe --features safe" ;;
    *) echo "unknown variant $v"; exit 2 ;;
  esac
  cargo build --offline --target x86_64-unknown-linux-gnu $o 2>&1 || exit 1
done
