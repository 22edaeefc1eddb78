#!/bin/bash
# replay.sh <replay file> : rebuild and re-execute one recorded failure exactly.
f=$(realpath "$1") || exit 2
cd "$(dirname "$0")" || exit 2
. ./env.sh
prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$f") || exit 2
case "$prop" in
  C18|C19|C20|C21|C22|C23) crate=zmix; bin=simzmix ;;
  C25) crate=ursap; bin=simursap ;;
  *) crate=ursa; bin=simursa ;;
esac
(cd sim/$crate && cargo build --offline --quiet) || exit 2
exec "$CARGO_TARGET_DIR/debug/$bin" replay "$f"
