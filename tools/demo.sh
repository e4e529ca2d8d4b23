#!/bin/bash
# Run in the repository's directory: exit 0 if the property holds, nonzero if it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_TARGET_DIR=$d/target DEMO_SCRATCH=$d/scratch
mkdir -p "$d/src" "$d/scratch"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
globalsearch = { path = "$repo", features = ["checkpointing", "rayon", "argmin"] }
ndarray = "0.16.1"
[profile.dev]
opt-level = 1
debug = false
[workspace]
T
cd "$d" && cargo build --offline -q || exit 2
timeout 200 "$d/target/debug/demo"
