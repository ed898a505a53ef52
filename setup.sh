#!/bin/bash
# warms the Go build cache; every check builds the harness again by itself
set -e
d=$(mktemp -d)
bash "$(dirname "$0")/harness/build.sh" "$d/zz"
rm -rf "$d"
