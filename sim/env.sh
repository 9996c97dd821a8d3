# Toolchain and flags of the simulator build. Sourced by the scripts here.
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2025-03-01
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="--cfg relp_sim -Awarnings"
export CARGO_TARGET_DIR=${here:-/verif}/sim/target
unset CARGO_INCREMENTAL CARGO_BUILD_TARGET
