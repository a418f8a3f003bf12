#!/bin/bash
# run in /repo after the build; exit 0 when the behaviour is right
. /opt/vp/env.sh 2>/dev/null
export CARGO_NET_OFFLINE=true CARGO_HUSKY_DONT_INSTALL_HOOKS=1
cargo build --offline --bins >/dev/null 2>&1 || { echo "build failed"; exit 2; }
exec timeout 200 python3 "$(dirname "$0")/demo.py"
