#!/bin/sh
# Builds the harness in the checked profile and runs it with the given arguments.
cd "$(dirname "$0")/../harness" || exit 2
CARGO_TARGET_DIR=/verif/.build/dev cargo build --offline --profile checked -q 2>/tmp/dev.err || { grep -A14 '^error' /tmp/dev.err; exit 2; }
[ $# -gt 0 ] && exec /verif/.build/dev/checked/fm-harness "$@"
