#!/bin/bash
# builds the harness once, so that the checks only rebuild the crate under test and the harness itself
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
cd "$here/harness" && cargo build --release --offline --locked
