#!/bin/bash
# builds the weaver and warms the build folders (offline)
export CARGO_NET_OFFLINE=true
cd /verif || cd "$(dirname "$0")/.."
V=$PWD
( cd tools/weave && CARGO_TARGET_DIR=$V/target/weave cargo build --offline --release -q ) || exit 1
( cd harness && CARGO_TARGET_DIR=$V/target/harness cargo build --offline -q ) || exit 1
( cd /repo && RUSTC_BOOTSTRAP=1 CARGO_TARGET_DIR=$V/target/expand cargo rustc --offline -q -p commit_verify --lib --features rand -- -Zunpretty=expanded >/dev/null ) || exit 1
( cd fixture && RUSTC_BOOTSTRAP=1 CARGO_TARGET_DIR=$V/target/expand cargo rustc --offline -q --lib -- -Zunpretty=expanded >/dev/null ) || exit 1
exit 0
