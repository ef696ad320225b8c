#!/bin/bash
# Builds the harness (also used as setup_cmd). Sourced by check.sh.
VERIF="${VERIF:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}"
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$VERIF/.target"
cd "$VERIF/harness"
# A build that fails here is not a verdict about any property.
build_log="$(mktemp)"
if ! cargo build --offline >"$build_log" 2>&1; then
  tail -50 "$build_log" >&2
  rm -f "$build_log"
  return 2 2>/dev/null || exit 2
fi
rm -f "$build_log"
export LD_LIBRARY_PATH="$(rustc --print sysroot)/lib"
