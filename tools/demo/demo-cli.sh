#!/bin/bash
# Builds the command line tool of the repository in the current directory, and
# runs the steps of run.sh (beside this script) with it, in a scratch folder.
repo=$PWD; here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH HOME=/root CARGO_HOME=/root/.cargo RUSTUP_TOOLCHAIN=stable
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=$t/target
cd "$repo" && cargo build --offline -q --bin tldr 2>"$t/log" || { tail -20 "$t/log"; exit 2; }
mkdir "$t/work"; cd "$t/work" && TLDR=$t/target/debug/tldr bash "$here/run.sh"
