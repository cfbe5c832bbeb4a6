#!/bin/bash
# Runs demo.rs against the crate in the current directory: exit 0 when the property holds on its input.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH="/root/.cargo/bin:/usr/local/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
d=$(mktemp -d) || exit 2
trap '/bin/rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
yaml-subset = { path = "$repo", features = ["serde"] }
serde = { version = "1", features = ["derive"] }
T
cd "$d" && cargo run --offline -q
