#!/bin/bash
# build_harness.sh BIN...: build binaries of the replay harness against /repo.
here=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
unset CARGO_INCREMENTAL
flags="--cfg roster_verif"
[ "$1" = --plain ] && { flags=""; shift; }
export RUSTFLAGS="$flags -Awarnings" CARGO_TARGET_DIR="$here/build/harness"
cd "$here/harness" || exit 2
args=(); for b in "$@"; do args+=(--bin "$b"); done
exec cargo build --offline -q "${args[@]}"
