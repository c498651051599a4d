#!/bin/bash
# Builds the extractor from the committed sources (every check builds it again if it is missing).
export PATH=/root/.cargo/bin:$PATH
unset RUSTUP_TOOLCHAIN CARGO_TARGET_DIR
cd "$(dirname "$0")/tools/rs2v" && CARGO_NET_OFFLINE=true cargo build --offline --release --locked
