#!/bin/bash
# Extract facts (MIR of the workspace crates) from /repo's current working tree, for configs A, B, C.
# usage: extract.sh OUTDIR [configs...]
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
REPO=${REPO_DIR:-/repo}
mkdir -p "$1"; OUT=$(cd "$1" && pwd); shift
CFGS=${*:-A B C}
export RUSTUP_TOOLCHAIN=nightly
SYS=$(rustc --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib:${LD_LIBRARY_PATH:-}
DRV=$V/driver/target/debug/factdriver
mkdir -p "$V/.cache"; exec 9>"$V/.cache/lock"; flock 9   # one extraction at a time per checkout
if [ ! -x "$DRV" ] || [ "$V/driver/src/main.rs" -nt "$DRV" ]; then
  (cd "$V/driver" && CARGO_TARGET_DIR=$V/driver/target cargo build --offline -q) || { echo "driver build failed" >&2; exit 3; }
fi
mkdir -p "$OUT"
export FACTS_DIR=$OUT RUSTC_WORKSPACE_WRAPPER=$DRV
export CARGO_TARGET_DIR=${FACTS_TARGET:-$V/.cache/target}
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
FULL=full,simd-full,ass-core/benches,ass-editor/dev-benches,ass-renderer/arena,ass-renderer/backend-metrics,ass-renderer/window,ass-renderer/unicode-wrap,ass-renderer/libass-compare,ass-renderer/plugins,ass-renderer/benches
cd "$REPO" || exit 3
for c in $CFGS; do
  # cargo's freshness cache would skip the wrapper: drop every build record of the workspace crates
  for k in core editor renderer; do
    rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/ass-$k-* "$CARGO_TARGET_DIR"/debug/build/ass-$k
    rm -f "$OUT"/ass_$k.$c.jsonl
  done
  case $c in
    A) a=(--workspace) ;;
    B) a=(--workspace --features "$FULL") ;;
    C) a=(-p ass-core -p ass-editor --no-default-features --features minimal,nostd) ;;
  esac
  FACTS_TAG=$c cargo check --lib --locked --offline -q --profile dev "${a[@]}" 2>"$OUT/cargo.$c.log" || { tail -40 "$OUT/cargo.$c.log" >&2; exit 4; }
  for k in core editor renderer; do
    [ $c$k = Crenderer ] && continue
    tail -n1 "$OUT/ass_$k.$c.jsonl" 2>/dev/null | grep -q '"k":"end"' || { echo "facts missing: $k $c" >&2; exit 5; }
  done
done
