#!/bin/bash
# check.sh build | check.sh PXX [quick|thorough]
# Builds the simulator with /repo's current working tree inside it, then decides one property.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0 CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=$here/target VERIF_DIR=$here
unset RUSTFLAGS
# cargo compares modification times only, which misses a file put back with an older one.
rm -rf "$here"/target/release/.fingerprint/trane-*
log=$(mktemp)
if ! (cd "$here/sim" && cargo build --release --offline --locked) >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "the simulator does not build with /repo's working tree" >&2
    exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
[ -n "$2" ] && export VERIF_TIER=$2
exec "$here/target/release/trane-sim" check "$1"
