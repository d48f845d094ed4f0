#!/bin/bash
# Builds the harness once against /repo, so that a broken toolchain shows early. Every check builds what it needs itself.
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target/build"
unset RUSTFLAGS RUSTDOCFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$here/evidence"
cd "$here/harness" && cargo build --offline --locked -q
