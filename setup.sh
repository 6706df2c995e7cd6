#!/bin/bash
# builds the extractor and the replay program from the committed files, offline
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true
(cd tools/vx && cargo build --offline --release -q) || exit 1
(cd replay && cargo build --offline -q && cargo build --offline -q --profile plain) || exit 1
