#!/bin/bash
# run with cwd at the library: exit 0 if demo.rs passes against it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 1
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" || exit 1
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rust_light = { path = "$repo" }
rayon = "1"
T
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 cargo run -q --offline $(grep -q "^// release" src/main.rs && echo --release)
