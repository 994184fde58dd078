#!/bin/bash
# Exits 0 when the allocator built from the current directory behaves.
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
bash "$d/build.sh" "$w" "$d/demo.cc" $(cat "$d/flags" 2>/dev/null) || exit 99
timeout 60 "$w/demo"
