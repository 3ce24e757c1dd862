#!/bin/bash
# check.sh <property>: build the simulator against /repo's working tree and run the property's check.
# Exit 0: held on everything explored; 1: violation (see the VIOLATION line); anything else: harness error.
cd "$(dirname "$0")" || exit 3
export RSIM_HOME="$PWD"
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0
cd "$RSIM_HOME/sim" || exit 3
log=$(mktemp /tmp/rsim-build.XXXXXX)
if ! cargo build --release --offline >"$log" 2>&1; then
    echo "build failed:"; tail -40 "$log"; rm -f "$log"; exit 3
fi
rm -f "$log"
[ "$1" = build ] && exit 0
exec ./target/release/rsim check "$1"
