#!/bin/bash
# Builds demo.c with the sources of the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
python3 "$here/xk.py" "$tmp/demo" "FRAGS" "$here/demo.c" || exit 3
cd "$tmp" && ./demo
