#!/bin/bash
# builds the extractor and the harness, offline
set -e
cd "$(dirname "$0")"
mkdir -p .build
(cd vx && CARGO_TARGET_DIR=/verif/.build/vx cargo build --release --offline 2>&1 | tail -2)
rm -rf /verif/.build/hz/release/.fingerprint /verif/.build/hz/stamp
(cd hz && CARGO_TARGET_DIR=/verif/.build/hz cargo build --release --offline 2>&1 | tail -2)
