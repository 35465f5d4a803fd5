# Sourced by check and setup.sh, from /verif.
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=/root CARGO_HOME=/root/.cargo RUSTUP_TOOLCHAIN=stable
export RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export LC_ALL=C.UTF-8
export CARGO_TARGET_DIR="$PWD/target"
mkdir -p target replay evidence

# Cargo compares mtimes only: forget what was built from /repo whenever the
# content of its files is not what it was at the last build.
refresh() {
    local sums=$PWD/target/.repo-sums
    (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 |
        xargs -0 sha256sum 2>/dev/null | LC_ALL=C sort) > "$sums.new"
    if ! cmp -s "$sums" "$sums.new"; then
        find "$PWD/target" -maxdepth 3 -type d \( -path '*/.fingerprint/treeldr*' -o -path '*/.fingerprint/tldr*' \
            -o -path '*/.fingerprint/mc-*' -o -path '*/.fingerprint/typed-*' -o -path '*/.fingerprint/derive-mc-*' -o -path '*/.fingerprint/gen-mc-*' \) \
            -prune -exec rm -rf {} +
    fi
    mv "$sums.new" "$sums"
}

build_crate() {
    refresh
    local log=$PWD/target/build-$1.log
    if ! (cd "$1" && cargo build --offline --message-format short) > "$log" 2>&1; then
        grep -E "error" "$log" | head -20 >&2
        echo "cannot build $1 against /repo" >&2
        return 1
    fi
}

# build_bin NAME: a binary of /repo, as target/debug/NAME.
build_bin() {
    refresh
    local log=$PWD/target/build-$1.log
    [ -f /repo/Cargo.lock ] || cp /opt/vp/Cargo.lock /repo/Cargo.lock
    if ! (cd /repo && cargo build --offline --workspace --bin "$1" --message-format short) > "$log" 2>&1; then
        grep -E "error" "$log" | head -20 >&2
        echo "cannot build $1 from /repo" >&2
        return 1
    fi
}
