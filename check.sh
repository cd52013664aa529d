#!/bin/bash
# usage: check.sh setup | <property> <quick|thorough> | replay <file>
# Builds the harness against /repo's working tree and runs one check.
export VERIF_ROOT="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
export CARGO_TARGET_DIR="$VERIF_ROOT/target"
unset LC_ALL LC_COLLATE LANGUAGE
export LANG=en_US.UTF-8
LOG="$VERIF_ROOT/target/build.log"
mkdir -p "$VERIF_ROOT/target"
build() {
  # cargo decides by modification times; force a rebuild when the content changed
  local stamp="$VERIF_ROOT/target/source.sum" sum
  sum=$(cd /repo && find core/src graphannis/src graphannis/build.rs core/Cargo.toml graphannis/Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
    rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/graphannis-* "$CARGO_TARGET_DIR"/debug/.fingerprint/graphannis-core-*
  fi
  if ! cargo build --offline --manifest-path "$VERIF_ROOT/harness/Cargo.toml" --features hooks >"$LOG" 2>&1; then
    tail -40 "$LOG"; echo "error: build failed"; exit 2
  fi
  echo "$sum" > "$stamp"
  if [ ! -e "$VERIF_ROOT/target/fsshim.so" ] || [ "$VERIF_ROOT/harness/fsshim.c" -nt "$VERIF_ROOT/target/fsshim.so" ]; then
    gcc -O1 -shared -fPIC -o "$VERIF_ROOT/target/fsshim.so" "$VERIF_ROOT/harness/fsshim.c" -ldl || exit 2
  fi
}
# web service, command line interface and C library
build_bins() {
  local dir="$VERIF_ROOT/target/ws" stamp="$VERIF_ROOT/target/bins.sum" sum
  sum=$(cd /repo && find core graphannis webservice capi cli Cargo.toml Cargo.lock -type f -not -path '*/target/*' -not -path '*/tests/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
    rm -rf "$dir"/debug/.fingerprint/graphannis*
  fi
  if ! CARGO_TARGET_DIR="$dir" CARGO_PROFILE_DEV_DEBUG=0 cargo build --offline --locked --manifest-path /repo/Cargo.toml \
      -p graphannis-webservice -p graphannis-capi -p graphannis-cli >"$LOG" 2>&1; then
    tail -40 "$LOG"; echo "error: build failed"; exit 2
  fi
  echo "$sum" > "$stamp"
}
build
case "$1" in
  setup|G32|G33|G34) build_bins ;;
  replay) case "$2" in *G32*|*G33*|*G34*) build_bins ;; esac ;;
esac
case "$1" in
  setup) exit 0 ;;
  *) exec "$CARGO_TARGET_DIR/debug/vharness" $( [ "$1" = replay ] && echo replay "$2" || echo check "$1" "$2" ) ;;
esac
