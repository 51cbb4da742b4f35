#!/bin/bash
# build_ir.sh OUTDIR FEATURES: from /repo's current source, the harness IR
# (OUT/all.ll) and the native replay binary (OUT/replay)
set -e
OUT=$1; FE=${2:-all}; H=$(cd "$(dirname "$0")/../harness" && pwd)
export RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
T=x86_64-unknown-linux-gnu
B=$(rustc --print sysroot)/lib/rustlib/$T/bin
mkdir -p "$OUT"
cd "$H"
( CARGO_TARGET_DIR=$OUT/nat cargo build --offline -q --features native,$FE --bin replay 2>$OUT/nat.log || { grep -A12 '^error' $OUT/nat.log; exit 3; } ) &
P=$!
CARGO_TARGET_DIR=$OUT/ir RUSTFLAGS="--emit=llvm-bc,link -C no-prepopulate-passes" cargo build --release --offline -q --features $FE --lib --target $T 2>$OUT/ir.log || { grep -A12 '^error' $OUT/ir.log; exit 3; }
D=$OUT/ir/$T/release/deps
bc=()
for c in vh auburn glam lk_math round_to serde serde_core serde_arrays serde_json serde_with itoa ryu memchr bevy bevy_transform bevy_math; do
  f=$(ls -t $D/$c-*.bc 2>/dev/null | head -1); [ -z "$f" ] || bc+=("$f")
done
"$B/llvm-link" "${bc[@]}" -o $OUT/all.bc
L=$("$B/llvm-dis" -o - $D/vh-*.bc | grep -o '^define[^@]*@[a-z0-9_]*(' | sed 's/.*@//;s/(//' | grep -v '^_' | sort -u | paste -sd,)
"$B/opt" -passes='internalize,globaldce' --internalize-public-api-list=$L $OUT/all.bc -o $OUT/all2.bc
"$B/llvm-dis" $OUT/all2.bc -o $OUT/all.ll
wait $P
cp $OUT/nat/debug/replay $OUT/replay
