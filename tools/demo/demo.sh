#!/bin/bash
# Builds a small slicer on /repo's flowistry and compares the slices of prog.rs with the marks in it.
HERE="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
. /opt/vp/env.sh
mkdir "$W/src"
cp "$HERE/main.rs" "$HERE/session.rs" "$W/src/"
cp "$HERE/Cargo.toml" "$HERE/Cargo.lock" "$HERE/rust-toolchain.toml" "$HERE/prog.rs" "$W/"
cd "$W" || exit 2
CARGO_TARGET_DIR="$W/target" cargo build --offline >"$W/log" 2>&1 || { tail -30 "$W/log"; exit 2; }
export LD_LIBRARY_PATH="$(rustc --print sysroot)/lib"
"$W/target/debug/demo" "$W/prog.rs"
