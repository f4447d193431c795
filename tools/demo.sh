#!/bin/bash
# Run in the root of the repository: builds main.rs against its crates in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 99
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cat >"$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
ratel = { path = "$repo/ratel" }
ratel-codegen = { path = "$repo/ratel-codegen" }
ratel-visitor = { path = "$repo/ratel-visitor" }
ratel-transformer = { path = "$repo/ratel-transformer" }
serde = "1"
serde_json = "1"
toolshed = "0.4"
[profile.dev]
debug-assertions = false
overflow-checks = true
debug = 0
[workspace]
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
[ -d /root/.cargo/bin ] && PATH=/root/.cargo/bin:$PATH
unset RUSTC_WRAPPER RUSTFLAGS CARGO_TARGET_DIR
cd "$work" || exit 99
cargo build --offline >build.log 2>&1 || { cat build.log; exit 98; }
timeout 60 ./target/debug/demo
