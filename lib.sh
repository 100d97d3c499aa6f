# sourced by check.sh and setup.sh
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
TARGET="${VERIF_TARGET:-$VERIF_DIR/target}"
mkdir -p "$TARGET" "$VERIF_DIR/evidence" "$VERIF_DIR/replays"
LOG="$TARGET/build-$$.log"
trap 'rm -f -- "$LOG"' EXIT
# cargo goes by mtimes; a tree whose content changed without newer mtimes must be rebuilt
stamp_tree() {
  local h; h=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32)
  if [ "$(cat "$TARGET/$1.hash" 2>/dev/null)" != "$h" ]; then
    rm -f "$TARGET/$1.hash"
    touch -c /repo/src/lib.rs /repo/src/main.rs
    PENDING="$TARGET/$1.hash"; PENDING_H="$h"
  else PENDING=; fi
}
stamp_done() { [ -n "$PENDING" ] && echo "$PENDING_H" > "$PENDING"; return 0; }
build_bin() { # one monitor; $1 = bin name(s)
  (
    flock 9
    stamp_tree "mon-$1"
    cd "$VERIF_DIR/harness" || exit 2
    RUSTFLAGS="--cfg av1enc_verif -Awarnings" CARGO_TARGET_DIR="$TARGET" \
      cargo build --offline --locked --quiet --bin "$1" >"$LOG" 2>&1 || exit 2
    stamp_done
  ) 9>"$TARGET/.lock"
}
build_cli() { # the real program, hooks off, into our own target directory
  (
    flock 9
    stamp_tree cli
    cd /repo || exit 2
    # the lock file is ignored by git there; use the one that matches the cached crates
    made=; [ -f Cargo.lock ] || { cp "$VERIF_DIR/harness/repo.Cargo.lock" Cargo.lock; made=1; }
    RUSTFLAGS="-Awarnings" CARGO_TARGET_DIR="$TARGET/cli" cargo build --offline --quiet --bin av1enc >"$LOG" 2>&1; rc=$?
    [ -n "$made" ] && rm -f /repo/Cargo.lock
    [ $rc -eq 0 ] || exit 2
    stamp_done
  ) 9>"$TARGET/.lock"
}
