# Toolchain and flags shared by all checks (sourced).
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=nightly-2025-12-08
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTC_WRAPPER=
export RUSTFLAGS="-C target-feature=+avx2,+fma --cfg phantom_verif"
unset CARGO_TARGET_DIR
