#!/bin/bash
# check.sh <property> [quick|thorough]: build the checker against /repo's working tree and run it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
export CARGO_NET_OFFLINE=true
export LIBCLANG_PATH="${LIBCLANG_PATH:-/usr/lib/llvm-18/lib}"
export CARGO_TARGET_DIR="$here/mc/target"
log="$(mktemp)"
# the sources of the Python extension are compiled only for the property about them
bin=mc
args=()
if [ "$id" = C23 ]; then
  bin=mcpy
  args=(--features py --bin mcpy)
fi
if ! (cd "$here/mc" && cargo build --release --offline "${args[@]}") >"$log" 2>&1; then
  tail -40 "$log" >&2
  rm -f "$log"
  echo "$id: the checker does not build against /repo" >&2
  exit 2
fi
rm -f "$log"
exec "$here/mc/target/release/$bin" run "$id" "$tier"
