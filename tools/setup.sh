#!/bin/bash
# Everything the checks build, once, from the committed files (each check builds what it needs by itself too).
set -e
cd "$(dirname "$0")/.."
for l in fe std drv cli nd; do bash tools/build.sh $l; done
