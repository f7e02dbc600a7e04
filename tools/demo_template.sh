#!/bin/bash
# exit 0: behaves as documented; nonzero otherwise. Run with the repository as working directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
pin-project = { path = "$repo" }
EOF
cp "$here/main.rs" "$t/src/main.rs"
cd "$t" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
cargo run --offline -q
