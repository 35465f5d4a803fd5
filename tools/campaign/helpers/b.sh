. /opt/vp/env.sh; cd /verif/harness; export CARGO_TARGET_DIR=/verif/target CARGO_INCREMENTAL=0; cargo build --offline --message-format short 2>&1 | grep -E "^src/|error" | head -${1:-40}
