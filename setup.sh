#!/bin/bash
# builds the explorers, so that the first check does not pay for it
set -u
cd "$(dirname "$0")" || exit 2
VERIF_DIR=$(pwd); export VERIF_DIR
. ./env.sh
export CARGO_TARGET_DIR=$VERIF_DIR/.build/mc
sync_sources mc
cargo build --offline --quiet --manifest-path mc/Cargo.toml --bins
