#!/bin/bash
# Build the runtime library of the tree in the current directory in a scratch folder and run demo.js on it.
set -e
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export PATH=/usr/local/bin:/usr/bin:/bin
cp -r stdlib "$T/stdlib"
rm -rf "$T/stdlib/wasm"
make -C "$T/stdlib" -B -s debug CC=clang-16 > "$T/log" 2>&1 || { cat "$T/log"; exit 9; }
OBJ=()
for bc in "$T"/stdlib/wasm/debug/*.bc; do o=${bc%.bc}.o; clang-16 --target=wasm32 -O0 -Wno-override-module -c "$bc" -o "$o"; OBJ+=("$o"); done
clang-16 --target=wasm32 -O2 -ffreestanding -fno-builtin -c "$D/rt.c" -o "$T/rt.o"
wasm-ld --no-entry --export-all --allow-undefined --stack-first -z stack-size=16384 --initial-memory=65536 "${OBJ[@]}" "$T/rt.o" -o "$T/lib.wasm"
node "$D/demo.js" "$T/lib.wasm"
