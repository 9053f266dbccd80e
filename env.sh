# Build environment of the checks (sourced). The toolchain is the one the project is built with here.
V=${V:-/verif}
export HOME=/root
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
if [ -r /opt/vp/env.sh ]; then
    t=$(sed -n 's/^export RUSTUP_TOOLCHAIN=//p' /opt/vp/env.sh | head -n 1)
    [ -n "$t" ] && export RUSTUP_TOOLCHAIN=$t
fi
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
export CARGO_TARGET_DIR=$V/target CARGO_INCREMENTAL=0
mkdir -p "$CARGO_TARGET_DIR"
