#!/bin/bash
# facts.sh OUTDIR: build the MIR dumper, then dump the type-checked program of /repo for every target CPU of the
# project's CI (x86-64: the portable code, x86-64-v3: the AVX2 code) as OUTDIR/<cpu>/nd.json.
# Everything is built in OUTDIR; /repo is only read.
set -u
OUT=$1
REPO=${ND_REPO:-/repo}
HERE=$(cd "$(dirname "$0")/.." && pwd)
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTFLAGS RUSTUP_TOOLCHAIN
TC=${ND_TOOLCHAIN:-nightly}
SYS=$(rustc +$TC --print sysroot) || exit 3
export LD_LIBRARY_PATH=$SYS/lib
mkdir -p "$OUT" || exit 3
DRV=${ND_DRIVER_TARGET:-$OUT/driver}
(cd "$HERE/driver" && CARGO_TARGET_DIR=$DRV cargo +$TC build --offline --quiet >"$OUT/driver.log" 2>&1) || { cat "$OUT/driver.log"; exit 3; }
run() {
    local cpu=$1
    rm -rf "$OUT/t-$cpu/debug/.fingerprint/"nd-* "$OUT/$cpu"
    mkdir -p "$OUT/$cpu"
    (cd "$REPO" && NDMIR_OUT=$OUT/$cpu RUSTC_WORKSPACE_WRAPPER=$DRV/debug/ndmir RUSTFLAGS="-C target-cpu=$cpu" \
        CARGO_TARGET_DIR=$OUT/t-$cpu CARGO_INCREMENTAL=0 cargo +$TC check --offline --bin nd >"$OUT/$cpu.log" 2>&1)
}
run x86-64 & p1=$!
run x86-64-v3 & p2=$!
wait $p1; r1=$?
wait $p2; r2=$?
if [ $r1 -ne 0 ] || [ $r2 -ne 0 ] || [ ! -s "$OUT/x86-64/nd.json" ] || [ ! -s "$OUT/x86-64-v3/nd.json" ]; then
    tail -40 "$OUT/x86-64.log" "$OUT/x86-64-v3.log"
    exit 3
fi
exit 0
