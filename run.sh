#!/bin/bash
# run.sh build | run.sh ID : (re)build the harness against /repo's working tree and run one check
set -u
cd "$(dirname "$0")/harness" || exit 2
export VERIF_ROOT="$(cd .. && pwd)"
if ! cargo build --offline --release >/tmp/vharness-build.$$ 2>&1; then
    tail -40 /tmp/vharness-build.$$ >&2
    rm -f /tmp/vharness-build.$$
    exit 2
fi
rm -f /tmp/vharness-build.$$
[ "$1" = build ] && exit 0
exec target/release/vharness check "$1"
