. /opt/vp/env.sh; cd /verif/derive; export CARGO_TARGET_DIR=/verif/target CARGO_INCREMENTAL=0; cargo build --offline --message-format short 2>&1 | grep -E "^src/|error|Finished" | head -${1:-40}
