#!/bin/bash
# Builds the engine; the harnesses are built from /repo's working tree by every check.
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
(cd symx && cargo build --release --offline)
