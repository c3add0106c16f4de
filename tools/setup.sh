#!/bin/bash
# Builds every driver from /repo's working tree, so that the checks only have to rebuild what changed.
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
bash tools/build.sh drivers 2>&1 | tail -n 40
exit "${PIPESTATUS[0]}"
