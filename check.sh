#!/bin/bash
# bash check.sh ID TIER — builds the harness against /repo's working tree and runs one check.
ID="$1"; TIER="${2:-quick}"
VERIF="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$VERIF"
# The extension is bundled by the check itself.
case "$ID" in C18|C19|C20) exec node "$VERIF/idecheck/check.cjs" "$ID" "$TIER";; esac
. "$VERIF/build.sh" || exit 2
case "$ID" in C16|C17) . "$VERIF/build_tools.sh" || exit 2;; esac
cd "$VERIF/harness"
exec "$CARGO_TARGET_DIR/debug/vharness" check "$ID" --tier "$TIER"
