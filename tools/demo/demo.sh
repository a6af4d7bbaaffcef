#!/bin/bash
# Runs case.txt on the real encrypted machine and compares each final state with a reference RV32I machine.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp -r "$here/src" "$here/Cargo.lock" "$work/"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$work/Cargo.toml"
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2025-12-08 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export RUSTFLAGS="-C target-feature=+avx2,+fma --cfg phantom_verif" CARGO_TARGET_DIR="$work/target"
cd "$work" && cargo build --offline -q 2>"$work/build.log" || { tail -30 "$work/build.log"; exit 2; }
# the noise of the real arithmetic can flip a bit once in a while: a deviation has to show twice
for i in 1 2; do timeout 130 "$work/target/debug/demo" "$here/case.txt" && exit 0; done
exit 1
