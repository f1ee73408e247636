#!/bin/bash
# Builds the framework and the code under test once.
set -u
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable}
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
cd "$(dirname "$0")" || exit 1
mkdir -p target evidence replays
. tools/build.sh
HASH=$(src_hash)
build_cli -p xdvdfs-cli && build_cli -p xdvdfs-fsd && build_bin --bins && build_cli_sync && build_sync --bin worker || exit 1
# the checks that need these build them too, and report it if they can't
build_desktop && build_web w && build_web wt --features tauri
build_cli_release && build_nostd && build_release --bin worker
exit 0
