#!/bin/bash
# Builds every harness once (the checks rebuild from /repo anyway).
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
rc=0
for p in h-*; do
  [ -f $p/Cargo.toml ] || continue
  (cd $p && cargo build --offline --locked) >/tmp/setup.$$.log 2>&1 || { tail -20 /tmp/setup.$$.log; rc=1; }
done
rm -f /tmp/setup.$$.log
exit $rc
