#!/bin/bash
# usage: build.sh TARGET...   Builds (incrementally) from /repo's working tree into /verif/build/hdk.
set -e
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CC=gcc CXX=g++
unset CONDA_PREFIX LD_LIBRARY_PATH
ROOT=$(cd "$(dirname "$0")/.." && pwd)
B=$ROOT/build/hdk
mkdir -p "$ROOT/build"
exec 9>"$ROOT/build/.lock"
flock 9
if [ ! -f $B/build.ninja ]; then
  cmake -S /repo -B $B -G Ninja -DCMAKE_BUILD_TYPE=None \
    -DCMAKE_CXX_FLAGS="-O1 -g0 -w -isystem $ROOT/stub" \
    -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_PREFIX_PATH=/usr/lib/llvm-16 \
    -DCMAKE_MODULE_PATH=$ROOT/cmake/modules -DCMAKE_PROJECT_INCLUDE=$ROOT/cmake/verif.cmake \
    -DENABLE_FOLLY=OFF -DENABLE_SQL=OFF -DENABLE_PYTHON=OFF -DENABLE_BENCHMARKS=OFF -DENABLE_ARMADILLO=ON
fi
# The rules for the LLVM modules of the runtime functions name only some of their sources: drop modules older than any source.
Q=$B/omniscidb/QueryEngine
if [ -f $Q/RuntimeFunctions.bc ] && [ -n "$(find /repo/omniscidb -path '*/Tests/*' -prune -o \( -name '*.h' -o -name '*.hpp' -o -name '*.cpp' \) -newer $Q/RuntimeFunctions.bc -print -quit)" ]; then
  rm -f $Q/*_internal.bc $Q/RuntimeFunctions.bc $Q/ExtensionFunctions.ast $Q/ExtensionFunctions.ast.raw
fi
ninja -C $B "$@" || exit 1
