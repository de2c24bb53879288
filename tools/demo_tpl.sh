#!/bin/sh
# builds demo.rs against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/demo.rs" "$t/src/main.rs" && cp "$here/Cargo.lock" "$t/" || exit 1
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$t/Cargo.toml"
cd "$t" && CARGO_TARGET_DIR="$t/target" RUSTFLAGS=-Awarnings cargo run -q --offline
