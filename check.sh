#!/bin/bash
# check.sh <ID> [--replay FILE]: rebuild the monitor of one property against /repo's working
# tree (hooks on) and run it.  exit 0 held, 1 VIOLATION, anything else: no verdict.
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
. "$VERIF_DIR/lib.sh"
ID="$1"; shift
bin=$(echo "$ID" | tr 'A-Z' 'a-z')
case "$ID" in
  C[0-9]*) ;;
  *) echo "usage: check.sh <property id>"; exit 2;;
esac
build_bin "$bin" || { echo "INCONCLUSIVE property=$ID: the monitor does not build against this tree"; tail -40 "$LOG"; exit 2; }
if [ -f "$VERIF_DIR/harness/needs_cli/$bin" ]; then
  build_cli || { echo "INCONCLUSIVE property=$ID: the command-line program does not build"; tail -40 "$LOG"; exit 2; }
  export AV1ENC_BIN="$TARGET/cli/debug/av1enc"
fi
export VERIF_SCRATCH="$(mktemp -d /tmp/av1enc-$bin.XXXXXX)"
trap 'rm -rf -- "$VERIF_SCRATCH"; rm -f -- "$LOG"' EXIT
ulimit -c 0
"$TARGET/debug/$bin" "$@"
rc=$?
if [ $rc -ge 128 ] && [ $rc -ne 137 ] && [ $rc -ne 143 ]; then
  # killed by a signal (stack overflow, abort, memory error) inside the code under test
  mkdir -p "$VERIF_DIR/replays"
  r="$VERIF_DIR/replays/$ID-signal.txt"
  echo "property=$ID: the monitored process died with status $rc (VERIF_SEED=$VERIF_SEED VERIF_TIER=$VERIF_TIER)" > "$r"
  echo "VIOLATION property=$ID replay=$r"
  exit 1
fi
exit $rc
