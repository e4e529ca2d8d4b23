#!/bin/bash
# Run in the repository's directory: exit 0 if the property holds, nonzero if it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_TARGET_DIR=$d/target PYO3_PYTHON=/usr/bin/python3.12
mkdir -p "$d/py"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "pyglobalsearch"
version = "0.0.0"
edition = "2024"
[lib]
path = "$repo/python/src/lib.rs"
crate-type = ["cdylib"]
[dependencies]
globalsearch = { path = "$repo", features = ["rayon", "argmin"] }
pyo3 = { version = "0.27.2", features = ["extension-module"] }
ndarray = "0.16.1"
seq-macro = "0.3"
[profile.dev]
opt-level = 1
debug = false
[workspace]
T
cd "$d" && cargo build --offline -q || exit 2
cp "$d/target/debug/libpyglobalsearch.so" "$d/py/pyglobalsearch.so"
cd "$d/py" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$d/py timeout 200 /usr/bin/python3.12 "$here/demo.py"
