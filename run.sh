#!/bin/bash
# run.sh ID TIER [--replay FILE] [--part NAME]
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD" RUSTC_BOOTSTRAP=1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never PATH="/root/.cargo/bin:$PATH"
unset RUSTC_WRAPPER RUSTFLAGS CARGO_TARGET_DIR RUSTUP_TOOLCHAIN
c=$(awk -v i="$1" '$1==i{print $2}' tools/crates.map)
case "$c" in
"") echo "unknown property $1"; exit 2 ;;
py:*) exec python3 "tools/${c#py:}.py" "$@" ;;
esac
if ! (cd ws && cargo build --offline -q -p "check-$c") >/tmp/build.$$.log 2>&1; then
	grep -v '^warning' /tmp/build.$$.log | head -60
	rm -f /tmp/build.$$.log
	echo "the check does not build against this tree"
	exit 2
fi
rm -f /tmp/build.$$.log
exec "ws/target/debug/check-$c" "$@"
