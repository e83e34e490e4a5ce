#!/bin/bash
# Builds main.rs against the crates in the current directory (/repo) and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here"/*.rs "$d/src/"
cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[profile.dev]
debug = false
[dependencies]
aldrin-core = { path = "$repo/core", features = ["channel", "introspection", "tokio"] }
aldrin-broker = { path = "$repo/broker", features = ["channel", "introspection", "statistics"] }
aldrin = { path = "$repo/aldrin", features = ["introspection"] }
T
[ -f "$here/deps.toml" ] && sed "s#REPO#$repo#" "$here/deps.toml" >> "$d/Cargo.toml"
export CARGO_TARGET_DIR=$d/target CARGO_NET_OFFLINE=true
unset RUSTFLAGS
cd "$d" || exit 1
cargo build --offline -q || exit 1
timeout 60 "$d/target/debug/demo"
