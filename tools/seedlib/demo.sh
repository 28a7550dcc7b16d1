#!/bin/bash
# Builds demo.rs against /repo and runs it. Exit 0: the property held.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
unset CARGO_INCREMENTAL
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf -- "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$here/common.rs" "$d/src/common.rs"
cp /repo/Cargo.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
publish = false
[workspace]
[dependencies]
roster = { path = "/repo/app/roster" }
bytes = "1"
bytestring = "1.3"
indexmap = "2"
monoio = { version = "0.2.2", features = ["bytes", "sync", "iouring"] }
coarsetime = "0.1"
[profile.dev]
panic = "abort"
debug = false
incremental = false
T
export RUSTFLAGS="--cfg roster_verif -Awarnings" CARGO_TARGET_DIR="${DEMO_TARGET:-$d/target}"
cd "$d" || exit 3
cargo build --offline -q || exit 3
cd "$d"
timeout 120 "$CARGO_TARGET_DIR/debug/demo" > "$d/out" 2> "$d/err"
rc=$?
grep -a '^demo:' "$d/out"
[ $rc -ne 0 ] && tail -c 600 "$d/err"
exit $rc
