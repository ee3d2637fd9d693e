#!/bin/bash
# run.sh ID [--replay FILE]: build the harness of property ID against /repo and run it.
# exit 0 held / 1 VIOLATION / 2 error of the check
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
ID="$1"; shift
case "$ID" in
  R*|U*) PKG=h-rope ;;
  N01|N02|N04|T01|T02) PKG=h-rpc ;;
  C16) PKG=h-fault ;;
  L*) PKG=h-lsp ;;
  P03|P04) PKG=h-plug ;;
  *) PKG=h-core ;;
esac
mkdir -p evidence
LOG="$(mktemp)"
if ! (cd $PKG && cargo build --offline --locked) >"$LOG" 2>&1; then
  grep -E "^error" -A12 "$LOG" | head -60
  tail -5 "$LOG"
  rm -f "$LOG"
  echo "build failed"
  exit 2
fi
rm -f "$LOG"
exec "$CARGO_TARGET_DIR/debug/$PKG" "$ID" "$@"
