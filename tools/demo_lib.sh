# Copied beside each demo.cpp: builds the program against the libraries that /opt/vp/build.sh built, and runs it.
set -e
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset LD_LIBRARY_PATH CONDA_PREFIX
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
B=$REPO/_build/omniscidb
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
L=""
for l in $LIBS; do L="$L $B/$l/lib$l.so -Wl,-rpath,$B/$l"; done
for l in StringDictionary DataMgr ResultSet QueryBuilder QueryOptimizer Analyzer IR SchemaMgr ConfigBuilder Utils Shared OSDependent Logger Calcite CudaMgr L0Mgr; do L="$L -Wl,-rpath-link,$B/$l -Wl,-rpath,$B/$l"; done
g++ -std=gnu++17 -O1 -w -DNDEBUG -DBOOST_ALL_DYN_LINK -DENABLE_SHARED_LIBS -DRAPIDJSON_HAS_STDSTRING -DTBB_PREVIEW_TASK_GROUP_EXTENSIONS=1 \
  -I"$REPO/_build" -I"$REPO/omniscidb" -I"$REPO/omniscidb/ThirdParty/rapidjson" -I/usr/lib/llvm-16/include $EXTRA \
  "$HERE/demo.cpp" -o "$W/demo" $L -lboost_log -lboost_filesystem -lboost_thread -lboost_system -lboost_regex -ltbb -lpthread $EXTRALIBS
cd "$W"
timeout 120 "$W/demo"
