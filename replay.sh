#!/bin/bash
# bash replay.sh FILE — runs the check of a saved failure on just that failure.
F="$(realpath "$1")"
VERIF="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$VERIF"
grep -qE '"property": ?"C(18|19|20)"' "$F" && exec node "$VERIF/idecheck/check.cjs" replay "$F"
. "$VERIF/build.sh" || exit 2
grep -q "C1[67]" "$F" && { . "$VERIF/build_tools.sh" || exit 2; }
exec "$CARGO_TARGET_DIR/debug/vharness" replay "$F"
