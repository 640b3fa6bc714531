#!/bin/bash
# check.sh <property> quick|thorough
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$V
L=$(mktemp) || exit 2
if ! bash "$V/build.sh" >"$L" 2>&1; then
    tail -40 "$L"
    rm -f "$L"
    echo "the explorer does not build against /repo"
    exit 2
fi
rm -f "$L"
exec "$V/target/debug/mc" check "$1" "$2"
