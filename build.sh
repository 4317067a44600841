#!/bin/bash
# build.sh BIN [FEATURE]: compile harness binary BIN (native code and whole-program LLVM IR) from /repo's working tree.
# Output: build/t[-FEATURE]/release/BIN and build/t[-FEATURE]/release/deps/BIN-*.ll
# The inliner thresholds only keep functions small and RandomState's hash function out of line; the code is otherwise optimised as usual.
set -e
cd "$(dirname "$0")/harness"
BIN=$1; FEAT=$2
export CARGO_NET_OFFLINE=true
export RUSTFLAGS="-C llvm-args=-inline-instr-cost=2000 -C llvm-args=-inline-call-penalty=10000 -C llvm-args=-inline-threshold=24000 -C llvm-args=-inlinehint-threshold=24000 -C no-vectorize-loops -C no-vectorize-slp"
export CARGO_TARGET_DIR="$(cd ..; pwd)/build/t${FEAT:+-$FEAT}"
mkdir -p "$CARGO_TARGET_DIR"
rm -f "$CARGO_TARGET_DIR"/release/deps/"$BIN"-*.ll
touch src/bin/"$BIN".rs
# cargo goes by modification times; make sure changed contents are seen
H=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o \( -name '*.rs' -o -name '*.toml' \) -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$CARGO_TARGET_DIR/srchash" 2>/dev/null)" != "$H" ]; then
  cargo clean --release --offline -p yule_log -p yule_log_macros >/dev/null 2>&1 || true
  echo "$H" >"$CARGO_TARGET_DIR/srchash"
fi
cargo rustc --release --offline ${FEAT:+--features $FEAT} --bin "$BIN" -- --emit=llvm-ir >"$CARGO_TARGET_DIR/$BIN.log" 2>&1 || { tail -40 "$CARGO_TARGET_DIR/$BIN.log" >&2; exit 3; }
