#!/bin/bash
# Builds the driver around /repo's crate and the extractor (the checks rebuild both themselves).
set -e
cd "$(dirname "$0")"
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
(cd harness && cargo build --offline --locked -q 2>/dev/null || cargo build --offline --locked)
(cd xtract && cargo build --offline --locked -q 2>/dev/null || cargo build --offline --locked)
(cd guide && cargo build --offline --locked -q 2>/dev/null || cargo build --offline --locked)
