#!/bin/bash
# Build the checker once (the checks rebuild it from /repo's working tree anyway).
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true
export LIBCLANG_PATH="${LIBCLANG_PATH:-/usr/lib/llvm-18/lib}"
export CARGO_TARGET_DIR="$here/mc/target"
cd "$here/mc" && cargo build --release --offline
cargo build --release --offline --features py --bin mcpy || echo "the Python extension does not build" >&2
