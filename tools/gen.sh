#!/bin/bash
# gen.sh OUT: extract the functions under contract into a crate for the verifier.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
out=$1; shift
mkdir -p "$out"
"$here"/build/extract/release/extract --src /repo/app/roster/src --contracts "$here"/contracts --out "$out" "$@"
