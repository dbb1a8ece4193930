#!/bin/bash
# usage: build.sh <crate> <bin>|--all : builds harness binaries against /repo's current tree.
# Cargo decides staleness by file times; here it is decided by content.
. "$(dirname "$0")/env.sh"
cd "$VERIF_ROOT/$1" || exit 4
hash=$(cd /repo && find src wasmpack Cargo.toml -type f -not -path '*/target/*' -not -name Cargo.lock -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
stamp="$CARGO_TARGET_DIR/repo-$1.hash"
mkdir -p "$CARGO_TARGET_DIR"
if [ "$(cat "$stamp" 2>/dev/null)" != "$hash" ]; then
	for p in dnssec-prover dnssec-prover-wasm httpsrv; do
		if grep -q "^name = \"$p\"" Cargo.lock 2>/dev/null; then cargo clean --offline --release -p $p >/dev/null 2>&1; fi
	done
	rm -f "$stamp"
fi
if [ "$2" = --all ]; then sel=--bins; [ "$1" = wasm ] && sel="--lib --bins"; elif [ "$2" = --lib ]; then sel=--lib; else sel="--bin $2"; fi
log=$(mktemp)
if ! cargo build --release --offline --locked $sel >"$log" 2>&1; then
	tail -n 60 "$log"; rm -f "$log"; echo "BUILD FAILED"; exit 4
fi
rm -f "$log"
echo "$hash" > "$stamp"
