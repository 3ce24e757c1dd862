#!/bin/bash
# Exit 0 if the demonstrated behaviour is as it must be.
here=$(cd "$(dirname "$0")" && pwd)
export REPO=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cp "$here"/*.mjs "$here"/*.js "$work/" 2>/dev/null
cd "$work" && exec node main.mjs
