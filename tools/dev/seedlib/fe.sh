#!/bin/bash
# Build the front end of the tree in the current directory in a scratch folder and run demo.rs on it.
set -e
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin HOME=/root RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR=$T/target
mkdir -p "$T/src/yul2ir"
cp src/yul.lalrpop "$T/src/"; cp src/yul2ir/ast.rs src/yul2ir/utils.rs "$T/src/yul2ir/"
cp "$D/Cargo.toml.in" "$T/Cargo.toml"; cp "$D/Cargo.lock.in" "$T/Cargo.lock"; cp "$D/build.rs.in" "$T/build.rs"; cp "$D/demo.rs" "$T/src/main.rs"
cd "$T"; cargo run -q --offline --bin fe
