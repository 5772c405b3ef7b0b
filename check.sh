#!/bin/bash
# Builds the checker against /repo's working tree and runs one check.
#   check.sh ID | check.sh replay FILE | check.sh build
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true VERIF_DIR="$PWD"
run() {
  cargo build --release --offline --quiet "$@" >>target.log 2>&1 && return 0
  cat target.log >&2
  exit 2
}
bins() {
  run --bins --manifest-path ../repo/Cargo.toml --target-dir "$PWD/target/repo"
}
: >target.log
run --manifest-path mc/Cargo.toml --target-dir "$PWD/target"
case "$1" in
  build) bins; exit 0 ;;
  C21) bins; exec ./target/release/mc run C21 ;;
  replay) grep -q '^property=C21' "$2" && bins; exec ./target/release/mc replay "$2" ;;
  *) exec ./target/release/mc run "$1" ;;
esac
