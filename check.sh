#!/bin/bash
# check.sh <property> [quick|thorough]   build the harness against /repo's working tree and decide one property
# exit 0 held, 1 violation (with a VIOLATION line), 2 no answer (build failure, harness error)
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
log="$(mktemp)"
# file times say nothing about content: always recompile the crate under test and the harness
for d in "$here"/harness/target/release/.fingerprint; do
  [ -d "$d" ] && find "$d" -maxdepth 1 \( -name 'satellite-*' -o -name 'vharness-*' \) -exec rm -rf {} +
done
if ! (cd "$here/harness" && cargo build --release --offline --locked) >"$log" 2>&1; then
  echo "check.sh: build of the harness against /repo failed" >&2
  tail -40 "$log" >&2; rm -f "$log"; exit 2
fi
rm -f "$log"
VERIF_ROOT="$here" VERIF_TIER="$tier" VERIF_SEED="${VERIF_SEED:-1}" exec "$here/harness/target/release/vharness" "$id"
