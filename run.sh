#!/bin/bash
# run.sh build            build the simulator against /repo's working tree
# run.sh check ID         decide property ID (VERIF_SEED, VERIF_TIER)
# run.sh replay FILE      re-execute a recorded violation
# run.sh dst ARGS...      run the simulator binary directly
set -u
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO_DIR="${REPO_DIR:-/repo}"
export VERIF_DIR
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER
BUILD="${DST_BUILD_DIR:-$VERIF_DIR/build}"
TRIPLE=x86_64-unknown-linux-gnu

build() {
  mkdir -p "$BUILD" || return 2
  exec 9>"$BUILD/.lock"
  flock 9
  # 1. The shim std, keyed by its content and the compiler.
  local h dir rlib
  h=$( { rustc -vV; cat "$VERIF_DIR"/simstd/src/*.rs; } | sha256sum | cut -c1-16)
  dir="$BUILD/simstd-$h"
  rlib="$dir/libllm_samplers_simstd.rlib"
  if [ ! -f "$rlib" ]; then
    mkdir -p "$dir.tmp"
    rustc --edition 2021 -O --crate-type rlib --crate-name llm_samplers_simstd \
      --target $TRIPLE "$VERIF_DIR/simstd/src/lib.rs" --out-dir "$dir.tmp" || { flock -u 9; return 2; }
    mv "$dir.tmp" "$dir"
  fi
  # 2. The simulator with the crate from $REPO_DIR, hook on.
  local src="$VERIF_DIR/dst"
  if [ "$REPO_DIR" != /repo ] || [ "$VERIF_DIR" != /verif ]; then
    # The path dependency in Cargo.toml is ../../repo: build a copy that points elsewhere.
    src="$BUILD/dst-src"
    mkdir -p "$src"
    cp -r "$VERIF_DIR/dst/." "$src/"
    sed -i "s#path = \"../../repo\"#path = \"$REPO_DIR\"#" "$src/Cargo.toml"
  fi
  local common="--extern llm_samplers_simstd=$rlib -L dependency=$dir --cap-lints allow"
  if ( cd "$src" && RUSTFLAGS="--cfg llm_samplers_sim $common" \
       cargo build --release --offline --target $TRIPLE --target-dir "$BUILD/t-hook" ) >"$BUILD/log" 2>&1; then
    BIN="$BUILD/t-hook/$TRIPLE/release/dst"
  elif ( cd "$src" && RUSTFLAGS="$common" \
       cargo build --release --offline --target $TRIPLE --target-dir "$BUILD/t-plain" ) >"$BUILD/log2" 2>&1; then
    echo "note: the tree does not build with the simulation hook; scheduling points inside it are not under control" >&2
    BIN="$BUILD/t-plain/$TRIPLE/release/dst"
  else
    cat "$BUILD/log" >&2
    flock -u 9
    return 2
  fi
  # Runs use a private copy, so that a later build cannot pull it away.
  RUN="$BUILD/run-$$"
  cp "$BIN" "$RUN" || { flock -u 9; return 2; }
  trap 'rm -f "$RUN"' EXIT
  flock -u 9
  exec 9>&-
}

case "${1:-}" in
  build) build || exit 2 ;;
  check|replay|dst)
    build || { echo "build failed" >&2; exit 2; }
    if [ "$1" = dst ]; then shift; fi
    ulimit -v 12000000
    ulimit -c 0
    "$RUN" "$@"
    exit $? ;;
  *) sed -n 2,6p "${BASH_SOURCE[0]}" >&2; exit 2 ;;
esac
