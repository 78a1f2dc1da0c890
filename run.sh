#!/bin/bash
# usage: run.sh <property> quick|thorough
# Rebuilds the harness against /repo's working tree, then searches for a
# violation. Exit 0 held, 1 violation, 2/3 no answer.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift 2
export RUSTFLAGS="--cfg wlverif"
# The LibraryLink crate is only built for the properties about it.
# So is the command-line program.
case "$id" in P17|P18|P19) what="--bin wlcheck --features link" ;; P31) what="--bins" ;; *) what="--bin wlcheck" ;; esac
log="$(mktemp)"
( cd "$here/harness" && cargo build --release --offline $what ) >"$log" 2>&1
rc=$?
# P32 compares with the parser built without positions.
if [ $rc -eq 0 ] && [ "$id" = P32 ]; then
  ( cd "$here/nosrc" && cargo build --release --offline ) >"$log" 2>&1
  rc=$?
fi
if [ $rc -ne 0 ]; then
  echo "ERROR: the harness does not build against /repo"
  grep -E '^error' -A8 "$log" | head -60
  rm -f "$log"; exit 2
fi
rm -f "$log"
ulimit -c 0
exec "$here/harness/target/release/wlcheck" "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" --verif "$here" "$@"
