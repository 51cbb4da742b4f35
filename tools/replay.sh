#!/bin/bash
# replay.sh PROPERTY < file.replay: run recorded inputs against the real code
D=$(mktemp -d); V=$(cd "$(dirname "$0")/.." && pwd)
F=$(python3 -c "import json,sys;print(json.load(open('$V/tools/plan.json'))['$1']['features'])")
cd $V/harness && RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=$D cargo build --offline -q --features native,$F --bin replay 2>/dev/null && $D/debug/replay
rm -rf "$D"
