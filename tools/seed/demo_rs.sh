#!/bin/bash
# run in /repo after the build; builds main.rs beside this file against /repo's crates in a scratch folder
. /opt/vp/env.sh 2>/dev/null
export CARGO_NET_OFFLINE=true CARGO_HUSKY_DONT_INSTALL_HOOKS=1
R=$(pwd)
D=$(mktemp -d /tmp/rd-demo-XXXXXX)
trap 'rm -rf "$D"' EXIT
mkdir "$D/src"
cp "$(dirname "$0")/main.rs" "$D/src/main.rs"
cp "$R/Cargo.lock" "$D/Cargo.lock"
cat > "$D/Cargo.toml" <<T
[package]
name = "rd-demo"
version = "0.1.0"
edition = "2021"
[dependencies]
dict = { path = "$R/component/dict" }
db = { path = "$R/component/db" }
common = { path = "$R/component/common" }
keys = { path = "$R/component/keys" }
tokio = { version = "*", features = ["full"] }
[workspace]
T
cd "$D"
CARGO_TARGET_DIR="$D/target" cargo build --offline -q 2>"$D/err" || { tail -20 "$D/err"; echo "build failed"; exit 2; }
timeout 100 "$D/target/debug/rd-demo"
