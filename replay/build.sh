#!/bin/bash
# build.sh <target dir>: builds the replay driver against /repo's current working tree
set -e
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp -r "$here/src" "$here/Cargo.toml" "$here/known_literals.txt" "$work/"
cp /repo/Cargo.lock "$work/Cargo.lock"
cd "$work"
CARGO_TARGET_DIR="$1" cargo build --offline -q
