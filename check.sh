#!/bin/bash
# usage: check.sh <property> quick|thorough        run a check against /repo's working tree
#        check.sh <property> --replay FILE         re-run one recorded execution, described
#        check.sh <property> quick --section NAME  one section only
cd "$(dirname "$0")" || exit 4
. tools/env.sh
id="$1"; shift
case "$1" in quick|thorough) export VERIF_TIER="$1";; esac
bin=$(echo "$id" | tr A-Z a-z)
case "$id" in
	C22|C23|C24|C25) crate=net;;
	C26) crate=wasm;;
	*) crate=mc;;
esac
if [ "$id" = C27 ]; then crate=wasm; bin=--lib; fi
bash tools/build.sh "$crate" "$bin" || exit 4
if [ "$id" = C27 ]; then exec node js/driver.mjs "$@"; fi
exec "$CARGO_TARGET_DIR/release/$bin" "$@"
