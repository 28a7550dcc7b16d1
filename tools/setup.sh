#!/bin/bash
# Build what the checks need: the extractor and the replay harness.
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$here/build" "$here/evidence"
(cd "$here/tools/extract" && RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/build/extract" cargo build --release --offline -q) || exit 1
bins=(); for f in "$here"/harness/src/bin/*.rs; do b=$(basename "$f" .rs); bins+=("$b"); done
bash "$here/tools/build_harness.sh" "${bins[@]}" || exit 1
echo ready
