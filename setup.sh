#!/bin/bash
# setup.sh : build every simulator crate from the committed files, offline.
cd "$(dirname "$0")" || exit 1
. ./env.sh
for c in ursa zmix ursap; do
  [ -d sim/$c ] || continue
  (cd sim/$c && cargo build --offline --quiet) || exit 1
done
mkdir -p evidence replays
