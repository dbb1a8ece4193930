#!/bin/bash
# Builds every harness binary once, so that checks only rebuild what a change of /repo touches.
cd "$(dirname "$0")" || exit 4
for c in mc net wasm; do
	if [ -d $c ]; then bash tools/build.sh $c --all || exit 1; fi
done
