#!/bin/bash
# check.sh <property> : rebuild the simulator against /repo's working tree, run the property's check.
cd "$(dirname "$0")" || exit 2
. ./env.sh
prop=$1
case "$prop" in
  C18|C19|C20|C21|C22|C23) crate=zmix; bin=simzmix ;;
  C25) crate=ursap; bin=simursap ;;
  *) crate=ursa; bin=simursa ;;
esac
log=$(mktemp)
if ! (cd sim/$crate && cargo build --offline --quiet) >"$log" 2>&1; then
  echo "build of the simulator failed:"; tail -60 "$log"; rm -f "$log"; exit 2
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/debug/$bin" check "$prop"
