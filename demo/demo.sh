#!/bin/bash
# Exit 0 if the demonstrated behaviour is as it must be.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here"/*.rs "$work/src/"
cp "$here/Cargo.lock.demo" "$work/Cargo.lock"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.demo" > "$work/Cargo.toml"
. /opt/vp/env.sh >/dev/null 2>&1
export RSIM_PANIC=1
export CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}"
cd "$work" || exit 2
cargo build --offline >build.log 2>&1 || { tail -30 build.log; exit 2; }
"$CARGO_TARGET_DIR/debug/demo"
