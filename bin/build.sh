#!/bin/bash
# Builds the harness against /repo's working tree. Usage: build.sh [dev|asan|tsan|miri]
# Freshness is decided by the content of /repo, not by file times.
set -u
cd "$(dirname "$0")/.." || exit 3
MODE=${1:-dev}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR
ARGS=(--offline --manifest-path harness/Cargo.toml)
TOOL=()
case "$MODE" in
dev) DIR=harness/target; SUB=debug ;;
asan|tsan)
  DIR=harness/target-$MODE; TOOL=(+nightly)
  case "$MODE" in asan) SAN=address;; tsan) SAN=thread;; esac
  export RUSTFLAGS="-Zsanitizer=$SAN"
  ARGS+=(--target x86_64-unknown-linux-gnu --target-dir "$DIR")
  if [ "$MODE" = tsan ]; then ARGS+=(-Zbuild-std); fi
  SUB=x86_64-unknown-linux-gnu/debug ;;
miri)
  DIR=harness/target-miri; TOOL=(+nightly miri); SUB=miri/x86_64-unknown-linux-gnu/debug
  export MIRIFLAGS="-Zmiri-disable-isolation" LIMA_NO_RLIMIT=1
  ARGS+=(--target-dir "$DIR") ;;
esac
mkdir -p "$DIR"
exec 9>"$DIR/.verif-lock"; flock 9
HASH=$(cd /repo && find src Cargo.toml Cargo.lock build.rs protobuf README.md -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum | sha256sum)
if [ "$(cat "$DIR/.verif-stamp" 2>/dev/null)" != "$HASH" ]; then
  rm -rf "$DIR/$SUB"/.fingerprint/beancount-parser-lima-*
fi
LOG=$(mktemp)
CMD=(build "${ARGS[@]}")
# Miri has no build of its own: run something trivial
if [ "$MODE" = miri ]; then CMD=(run "${ARGS[@]}" -- scale nothing 0); fi
if cargo "${TOOL[@]}" "${CMD[@]}" >"$LOG" 2>&1; then
  printf '%s\n' "$HASH" >"$DIR/.verif-stamp"; rm -f "$LOG"; exit 0
fi
grep -E '^(error|warning: unused)' -A8 "$LOG" | head -60; tail -5 "$LOG"; rm -f "$LOG"
exit 3
