#!/bin/bash
# replay.sh <replay file>: re-run one recorded case against /repo's working tree
here="$(cd "$(dirname "$0")" && pwd)"
f="$(realpath "$1")"
bash "$here/setup.sh" >/dev/null 2>&1 || { echo "build failed" >&2; exit 2; }
exec "$here/harness/target/release/vharness" replay "$f"
