#!/bin/bash
# Builds the harness once from the committed files (every check builds it again, from /repo's tree).
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
cd harness && cargo build --offline --locked 2>&1 | tail -3
exit "${PIPESTATUS[0]}"
