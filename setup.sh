#!/bin/bash
# Compiles everything once, to warm the build cache and to fail early.
cd "$(dirname "$0")" || exit 2
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
for p in core ora xcf; do
	[ -f harness/$p/main.go ] || continue
	./build.sh $p "$dir/$p" || exit 2
done
if [ -f harness/xcf/main.go ]; then
	./build.sh xcf "$dir/xcf-race" -race || exit 2
fi
echo ready
