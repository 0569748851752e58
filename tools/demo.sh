#!/bin/bash
# Builds main.rs (beside this script) against the crate in the current directory, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
mkdir -p "$dir/src" "$dir/run"
cp "$here/main.rs" "$dir/src/main.rs"
cat > "$dir/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
spreadsheet-ods = { path = "$repo" }
icu_locale_core = "2.0"
chrono = { version = "0.4", default-features = false, features = ["clock", "alloc"] }
zip = { version = "6.0.0", default-features = false, features = ["deflate", "time"] }
[profile.dev]
debug = 0
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$dir/Cargo.lock"
export CARGO_TARGET_DIR="$dir/target"
cd "$dir" || exit 2
cargo build --offline --quiet || { echo "demo does not build"; exit 2; }
cd "$dir/run" && timeout 60 "$dir/target/debug/demo"
