#!/bin/bash
# Builds and runs main.rs (beside this script) against the Rust crates of the
# repository in the current directory.
repo=$PWD; here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH HOME=/root CARGO_HOME=/root/.cargo RUSTUP_TOOLCHAIN=stable
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=$t/target
mkdir -p "$t/src"; cp "$here"/*.rs "$t/src/"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock" || cp /opt/vp/Cargo.lock "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
treeldr = { path = "$repo/generators/rust/treeldr-rs" }
treeldr-layouts = { path = "$repo/layouts" }
treeldr-gen-rust = { path = "$repo/generators/rust/generator" }
rdf-types = "0.22"
serde_json = "1"
syn = "2"
iref = "3.1"
static-iref = "3.0"
T
cd "$t" && cargo build --offline -q 2>"$t/log" || { tail -20 "$t/log"; exit 2; }
cd /; timeout 60 "$t/target/debug/demo"
