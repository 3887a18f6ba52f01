#!/bin/bash
# Prebuild everything the checks use.
cd "$(dirname "$0")" || exit 3
. ./env.sh
vh_build lib || exit 1
vh_build cli || exit 1
vh_build units || exit 1
vh_build log
# dependencies of the copies of the repository that C11-C13, C18 and C22 build
for d in user batch; do
  RUSTFLAGS=-Awarnings CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=0 \
    cargo build --manifest-path "$VH_REPO/Cargo.toml" --target-dir "$VH_TARGET/$d/target" --offline -q --locked --bins >/dev/null 2>&1
done
exit 0
