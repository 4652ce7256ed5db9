#!/bin/bash
# builds the extractor and the replay harness (the checks build them again when needed)
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true
(cd extract && CARGO_TARGET_DIR=../.build/xtarget cargo build --offline -q) || exit 1
(cd replay && CARGO_TARGET_DIR=../.build/target RUSTFLAGS="--cfg verif_hooks -Awarnings" cargo build --offline -q --features hooks) || exit 1
verus --version >/dev/null
