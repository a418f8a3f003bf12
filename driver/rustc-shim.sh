#!/bin/bash
# The nightly rustc, presenting itself as a stable release to build scripts:
# the locked dependencies predate this nightly's unstable features and must not probe for them.
for a in "$@"; do
  case "$a" in
    -V|-vV|--version) "$REAL_RUSTC" "$@" | sed -e 's/-nightly//'; exit "${PIPESTATUS[0]}";;
  esac
done
exec "$REAL_RUSTC" "$@"
