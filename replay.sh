#!/bin/bash
# replay.sh <replay file>: runs one reported execution again and prints it
V=$(cd "$(dirname "$0")" && pwd)
bash "$V/build.sh" >/dev/null 2>&1 || exit 2
exec "$V/target/debug/mc" replay "$1"
