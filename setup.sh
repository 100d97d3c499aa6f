#!/bin/bash
# builds every monitor once, so that a check only rebuilds what changed in /repo
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
. "$VERIF_DIR/lib.sh"
cd "$VERIF_DIR/harness" || exit 2
rc=0
RUSTFLAGS="--cfg av1enc_verif -Awarnings" CARGO_TARGET_DIR="$TARGET" cargo build --offline --locked --quiet --bins >"$LOG" 2>&1 || { tail -40 "$LOG"; rc=1; }
build_cli || { tail -40 "$LOG"; rc=1; }
exit $rc
