#!/bin/bash
# Builds the harness once (each check builds again what has changed).
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
export RUSTFLAGS="--cfg wlverif"
cd "$here/harness" || exit 1
cargo build --release --offline --bin wlcheck --features link 2>&1 | tail -3
[ "${PIPESTATUS[0]}" = 0 ] || exit 1
cargo build --release --offline --bins 2>&1 | tail -3
[ "${PIPESTATUS[0]}" = 0 ] || exit 1
cd "$here/nosrc" && cargo build --release --offline 2>&1 | tail -3
exit "${PIPESTATUS[0]}"
