#!/bin/bash
# builds the explorer against /repo's current working tree
. /opt/vp/env.sh
V=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR=$V/target RUSTFLAGS=-Awarnings VERIF_DIR=$V
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_INCREMENTAL=0
cd "$V/mc" || exit 2
exec cargo build --offline --locked
