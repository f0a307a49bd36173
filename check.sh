#!/bin/bash
# usage: check.sh ID [quick|thorough] [suite]     builds the harness against /repo's working tree and runs one check
#        check.sh build                            builds only
#        check.sh replay ID FILE                   replays one counterexample
# exit 0: held on everything explored, 1: VIOLATION printed, 2: no answer (build failure or harness problem)
here=$(cd "$(dirname "$0")" && pwd)
export VH_VERIF=$here
export CARGO_TARGET_DIR=${VH_TARGET:-$here/target}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=${VH_TOOLCHAIN:-stable}
unset RUSTFLAGS RUSTC_WRAPPER RAYON_NUM_THREADS
repo=${VH_REPO:-/repo}
harness=${VH_HARNESS:-$here/harness}
mkdir -p "$CARGO_TARGET_DIR" || exit 2
(
  flock 9
  # cargo decides by modification times; a tree that was swapped underneath could look unchanged, so decide by contents
  sum=$(cd "$repo" && { find src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml; } | sha256sum)
  cd "$harness" || exit 1
  if [ "$(cat "$CARGO_TARGET_DIR/.repo-sum" 2>/dev/null)" != "$sum" ]; then
    rm -f "$CARGO_TARGET_DIR/.repo-sum"
    [ -d "$CARGO_TARGET_DIR/release" ] && cargo clean -q --release --offline -p rust_light 2>/dev/null
    [ -d "$CARGO_TARGET_DIR/p/plain" ] && cargo clean -q --profile plain --offline -p rust_light --target-dir "$CARGO_TARGET_DIR/p" 2>/dev/null
  fi
  # two builds: with debug assertions and overflow checks, and as a user's release build has it
  cargo build -q --profile plain --offline --locked --target-dir "$CARGO_TARGET_DIR/p" 2> "$CARGO_TARGET_DIR/build-plain.log" &
  plain=$!
  cargo build -q --release --offline --locked 2> "$CARGO_TARGET_DIR/build.log"; ok=$?
  wait $plain && [ $ok = 0 ] || { cat "$CARGO_TARGET_DIR/build.log" >&2; exit 1; }
  echo "$sum" > "$CARGO_TARGET_DIR/.repo-sum"
) 9> "$CARGO_TARGET_DIR/.lock" || { echo "ERROR: the harness does not build against $repo"; exit 2; }
case "$1" in
  build) exit 0 ;;
  replay) exec "$CARGO_TARGET_DIR/release/vh" replay "$2" "$3" ;;
  *) exec "$CARGO_TARGET_DIR/release/vh" check "$@" ;;
esac
