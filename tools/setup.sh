#!/bin/bash
# builds the extractor and the replay drivers, offline; a driver that does not build is reported by the checks
cd "$(dirname "$0")/.." || exit 1
(cd tools/extract && cargo build --offline --quiet) || exit 1
(cd replay && cargo build --offline --quiet --bin replay; cargo build --offline --quiet --bin thr; cargo build --offline --quiet --bin ops; cargo build --offline --quiet --profile nodbg --bin replay)
exit 0
