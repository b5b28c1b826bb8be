#!/bin/bash
# Build the simulator and the crate under test from /repo's current working tree.
# usage: build.sh [checked|plain|all]
set -e
cd "$(dirname "$0")/sim"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
what=${1:-all}
one() {
  # cargo decides by modification times: forget the crate under test so that it is always rebuilt
  for d in target/"$1"/.fingerprint/aws-smt-strings-*; do
    [ -d "$d" ] && rm -rf "$PWD/$d"
  done
  cargo build --offline --quiet --profile "$2" 2>target/build-"$1".log || { cat target/build-"$1".log >&2; return 1; }
}
mkdir -p target
case $what in checked|all) one release release ;; esac
case $what in plain|all) one plain plain ;; esac
