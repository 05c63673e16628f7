#!/bin/bash
# run with cwd = the repository; exit 0 when the property's behaviour is there
set -u
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cat "$here/prelude.rs" "$here/demo.rs" > "$work/src/main.rs"
cp "$here/demo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
jagua-rs = { path = "$repo/jagua-rs" }
lbf = { path = "$repo/lbf" }
rand = { version = "0.8.5", features = ["small_rng"] }
serde_json = "1.0"
tribool = "0.3.0"
[profile.dev]
opt-level = 1
debug-assertions = false
[workspace]
T
cd "$work" && CARGO_TARGET_DIR="$work/target" timeout 280 cargo run --offline -q
