#!/bin/bash
# Builds a scratch program against the crate in the working directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/rfldemo.XXXXXX) || exit 2
mkdir "$t/src"
cp "$here"/*.rs "$t/src/"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2018"

[[bin]]
name = "demo"
path = "src/demo.rs"

[workspace]

[dependencies]
rustful = { path = "$repo" }
EOF
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$t/Cargo.lock"; fi
cd "$t" || exit 2
export CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true
unset RUSTC_WRAPPER
cargo build --offline --quiet > "$t/log" 2>&1 || { cat "$t/log"; find "$t" -delete; exit 3; }
mkdir "$t/scratch"
cd "$t/scratch" || exit 2
timeout 100 "$t/target/debug/demo"
r=$?
cd /
find "$t" -delete
exit $r
