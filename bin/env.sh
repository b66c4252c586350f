# Build environment of the harness crates (offline, everything under /verif/.work or $VERIF_WORK).
export HOME=/root CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
export PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS="--cap-lints allow" RUST_BACKTRACE=0
export CARGO_TARGET_DIR="${VERIF_TARGET:-/verif/.work/target}"
