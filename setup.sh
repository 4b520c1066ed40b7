#!/bin/bash
cd "$(dirname "$0")/ws" || exit 2
export RUSTC_BOOTSTRAP=1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never PATH="/root/.cargo/bin:$PATH"
unset RUSTC_WRAPPER RUSTFLAGS CARGO_TARGET_DIR RUSTUP_TOOLCHAIN
p=$(awk '$2 !~ /^py:/{print "-p check-"$2}' ../tools/crates.map | sort -u)
cargo build --offline -q $p -p precompile-utils-macro -p num_enum
