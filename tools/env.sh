# Environment for every build of the machinery.
export HOME=/root LANG=C.UTF-8
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=nightly-2024-07-02
export CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=1
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
unset CARGO_PROFILE_DEV_DEBUG RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
VERIF=${VERIF:-/verif}
export CARGO_TARGET_DIR=$VERIF/target/h
