#!/bin/bash
# Builds the engine and the harness from the working tree of /repo:
#   engine/target/release/engine   the symbolic executor
#   harness/target/h               the harness, native
#   harness/target/h.ll            the harness, whole-program LLVM IR
# usage: build.sh      (safe to run concurrently and repeatedly)
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir -p harness/target
exec 9>harness/target/.lock
flock 9
( cd engine && RUSTFLAGS=-Awarnings cargo build -q --release --offline )
cd harness
T=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
RUSTFLAGS="--cfg vs_hooks -Awarnings" cargo rustc -q --release --offline --bin h -- -C save-temps --emit=llvm-ir
BC=$(find target/release -name '*.lto.input.bc' -printf '%T@ %p\n' | sort -n | tail -1 | cut -d' ' -f2-)
[ -n "$BC" ] || { echo "no bitcode was produced" >&2; exit 2; }
if [ ! -s target/h.ll ] || [ "$BC" -nt target/h.ll ] || ! cmp -s target/release/h target/h; then
  "$T/opt" --strip-debug -passes='internalize,globaldce' -internalize-public-api-list=vs_entry "$BC" -S -o target/h.ll.new
  mv target/h.ll.new target/h.ll
  cp -f target/release/h target/h.new
  mv target/h.new target/h
fi
