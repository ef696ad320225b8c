#!/bin/bash
# Builds the command-line tools of /repo (cargo-flowistry, flowistry-driver, cargo-ifc, ifc-driver). Sourced after build.sh.
export VERIF_TOOLS="$VERIF/.target/tools/debug"
build_log="$(mktemp)"
if ! (cd /repo && CARGO_PROFILE_DEV_OPT_LEVEL=1 cargo build --offline -p flowistry_ide -p flowistry_ifc --target-dir "$VERIF/.target/tools") >"$build_log" 2>&1; then
  tail -50 "$build_log" >&2
  rm -f "$build_log"
  return 2 2>/dev/null || exit 2
fi
rm -f "$build_log"
