#!/bin/bash
# Builds the scheduler harness from /repo; prints where the program is.
set -e
cd "$(dirname "$0")"
out=${1:-/verif/target}
mkdir -p "$out"
clang -O2 -Wall -fPIC -c rt.c -o "$out/rt.o"
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true
RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Clink-arg=$out/rt.o" \
    cargo build --offline -Zbuild-std --target x86_64-unknown-linux-gnu --target-dir "$out/sched" >&2
echo "$out/sched/x86_64-unknown-linux-gnu/debug/sched"
