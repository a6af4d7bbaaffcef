#!/bin/bash
# Builds and runs main.rs against the repository in the current directory; it panics where the behaviour is wrong.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
sed "s#@REPO@#$repo#g" "$here/main.rs" > "$work/src/main.rs"
sed "s#@REPO@#$repo#g" "$here/Cargo.toml.in" > "$work/Cargo.toml"
cp "$here/Cargo.lock" "$work/" 2>/dev/null
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2025-12-08 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export RUSTFLAGS="-C target-feature=+avx2,+fma --cfg phantom_verif" CARGO_TARGET_DIR="$work/target"
unset PHANTOM_DEBUG PHANTOM_THREADS PHANTOM_VERBOSE_TIMINGS
cd "$work" && cargo build --offline -q 2>"$work/build.log" || { tail -30 "$work/build.log"; exit 2; }
"$work/target/debug/demo"
