#!/bin/bash
# Writes the committed sources of derive and gen again, after a change of the families.
cd "$(dirname "$0")/.." || exit 2
export MC_VERIF="$PWD"
. ./env.sh
build_crate harness || exit 2
target/debug/mc --emit-gen gen || exit 2
build_crate derive || exit 2
target/debug/derive-mc --emit > target/types.rs && mv target/types.rs derive/src/types.rs
