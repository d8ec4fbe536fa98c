#!/bin/bash
# builds the extractor and the replay harness, offline
set -e
cd "$(dirname "$0")"
(cd extract && CARGO_TARGET_DIR=target cargo build --offline --release --quiet)
(cd harness && CARGO_TARGET_DIR=target cargo build --offline --release --quiet)
harness/target/release/vxh selftest
