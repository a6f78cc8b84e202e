#!/bin/bash
# usage: check.sh ID   - rebuilds the harness against /repo's working tree and runs one check.
# VERIF_TIER=quick|thorough selects the bounds.  Exit 0: held; 1: VIOLATION; 2: error of the check.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
source /opt/vp/env.sh 2>/dev/null
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/harness/target"
log=$(mktemp)
# Cargo trusts file times; make sure a changed source is rebuilt whatever its time says.
sum=$(cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum | sha256sum)
if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/repo.sum" 2>/dev/null)" ]; then
	(cd harness && cargo clean --release --offline -p fluffy_tribble >/dev/null 2>&1)
	mkdir -p "$CARGO_TARGET_DIR" && echo "$sum" >"$CARGO_TARGET_DIR/repo.sum"
fi
if ! (cd harness && cargo build --release --offline --locked >"$log" 2>&1); then tail -40 "$log"; rm -f "$log"; echo "ERROR: harness build failed"; exit 2; fi
rm -f "$log"
[ "$1" = build ] && exit 0
exec harness/target/release/harness check "$1"
