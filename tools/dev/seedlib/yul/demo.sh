#!/bin/bash
# Build the compiler of the tree in the current directory in a scratch folder (the LLVM binding and the other crates that
# are not available offline come from the stand-ins beside this file) and run demo.js with it.
set -e
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cp -r "$D/tree/." "$T"
for f in $(find "$T" -name '*.in'); do mv "$f" "${f%.in}"; done
REPO=$PWD bash "$T/tools/build.sh" LAYER
cp "$D/demo.js" "$D/yt.js" "$T"
cd "$T"; timeout 250 node demo.js
