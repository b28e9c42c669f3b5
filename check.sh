#!/bin/bash
# usage: check.sh ID          build what ID needs from /repo's tree, run its check
#        check.sh --build     build everything
#        check.sh --replay F  run the case a replay file names
# Exit: 0 held, 1 violation, 3 no answer (build failure or a broken check).
dir=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$dir
export CARGO_TARGET_DIR=$dir/target RUSTFLAGS="--cfg rcgal_verif" CARGO_TERM_COLOR=never
build() {
  log=$(mktemp)
  if ! (cd "$dir/harness" && cargo build --release --offline --locked "$@") >"$log" 2>&1; then
    grep -E '^(error|  *-->)' -A5 "$log" >&2 || cat "$log" >&2
    rm -f "$log"
    echo "CHECK ERROR: the harness does not build against /repo" >&2
    exit 3
  fi
  rm -f "$log"
}
# The WebAssembly library, by the toolchain that has its target.
build_wasm() {
  log=$(mktemp)
  if ! (cd /repo && CARGO_TARGET_DIR=$dir/target/wasm RUSTFLAGS= RUSTUP_TOOLCHAIN=1.98.0 \
    cargo build --release --lib --target wasm32-unknown-unknown --offline --locked) >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "CHECK ERROR: the WebAssembly library does not build" >&2
    exit 3
  fi
  rm -f "$log"
}
bin_of() {
  case "$1" in P35 | P36 | P37) echo mon_ds ;; P41) echo mon_wasm ;; *) echo mon ;; esac
}
case "$1" in
--build)
  build --bins
  build_wasm
  ;;
--replay)
  id=$(sed -n 's/.*"property": "\([^"]*\)".*/\1/p' "$2")
  bin=$(bin_of "$id")
  build --bin "$bin"
  [ "$bin" != mon_wasm ] || build_wasm
  exec "$dir/target/release/$bin" replay "$2"
  ;;
*)
  bin=$(bin_of "$1")
  build --bin "$bin"
  [ "$bin" != mon_wasm ] || build_wasm
  exec "$dir/target/release/$bin" check "$1"
  ;;
esac
