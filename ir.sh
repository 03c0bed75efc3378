#!/bin/bash
# usage: ir.sh TARGETDIR OUT.ll [FEATURES]
set -e
export RUSTUP_TOOLCHAIN=stable
export RUSTFLAGS="-Cno-vectorize-loops -Cno-vectorize-slp"
cd "$(dirname "$0")/harness"
cargo rustc --offline --release --lib --crate-type cdylib --target-dir "$1" ${3:+--features "$3"} -- --emit=llvm-bc
B=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
$B/llvm-dis "$1"/release/deps/kdlsym.bc -o "$2"
