#!/bin/bash
# extract.sh OUTDIR [TARGETDIR [SOURCE]]  -- dump MIR facts of /repo's current tree (another tree only in trials)
set -e
OUT=$1; TGT=${2:-/verif/.build/target}
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export CARGO_NET_OFFLINE=true CARGO_HUSKY_DONT_INSTALL_HOOKS=1 CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=nightly
export REAL_RUSTC=$(rustup which --toolchain nightly rustc)
export RUSTC=/verif/driver/rustc-shim.sh
export RUSTC_WORKSPACE_WRAPPER=/verif/driver/target/release/factdump
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=off -Awarnings --cap-lints=allow"
export RUDIS_FACTS_DIR=$OUT CARGO_TARGET_DIR=$TGT
mkdir -p "$OUT" "$TGT"
cd ${3:-/repo}
exec cargo check --offline --lib -p server -p pd -p db -p dict -p common -p keys
