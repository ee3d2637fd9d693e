# sourced by run.sh and setup.sh
export HOME=/root
export CARGO_HOME=/root/.cargo
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0
export RUSTC_WRAPPER=
unset CARGO_PROFILE_DEV_DEBUG CARGO_BUILD_TARGET RUST_BACKTRACE
export RUSTFLAGS="--cfg xi_verif -Awarnings"
export VERIF_DIR="${VERIF_DIR:-/verif}"
export CARGO_TARGET_DIR="${VERIF_TARGET:-$VERIF_DIR/target}"
