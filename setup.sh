#!/bin/bash
# Build the fact driver and warm the dependency build (checks repeat this themselves when it is missing).
set -e
V=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d)
"$V/tools/extract.sh" "$D" A B C
rm -rf "$D"
