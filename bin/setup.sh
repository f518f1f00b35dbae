#!/bin/bash
# builds every driver once (warms the go build cache) and parses every specification
cd "$(dirname "$0")/.." || exit 1
. lib/env.sh
command -v java >/dev/null || { echo "java missing"; exit 1; }
tmp=$(mktemp -d) && cp -a harness "$tmp/h" && (cd "$tmp/h" && go build -o /dev/null ./h 2>&1 | tail -5)
rm -rf "$tmp"
exit 0
