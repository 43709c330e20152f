#!/bin/bash
# run with cwd = the repository. Builds the library from its sources against the
# stand-in headers beside this file, then runs demo.cpp in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$T"' EXIT
mkdir "$T/inc" "$T/obj" "$T/run"; ln -s "$R/src" "$T/inc/envire"
FLAGS="-std=c++14 -w -O0 SANITIZE -DBOOST_BIND_GLOBAL_PLACEHOLDERS -DEIGEN_MAX_ALIGN_BYTES=0 -DEIGEN_DONT_VECTORIZE -I$T/inc -I$R/src -I$D/shim -I/usr/include/eigen3"
{ ls "$R"/src/core/*.cpp "$R"/src/maps/*.cpp | grep -v /PolygonMap.cpp
  for t in PlyFile GridAccess GraphViz BresenhamLine RadialLookUpTable BoxLookUpTable; do [ -e "$R/src/tools/$t.cpp" ] && echo "$R/src/tools/$t.cpp"; done
  [ -e "$D/extra" ] && sed "s|^|$R/src/|" "$D/extra"
  echo "$D/demo.cpp"; } > "$T/list"
xargs -P 8 -I{} sh -c 'g++ '"$FLAGS"' -c "$1" -o "'"$T"'/obj/$(basename "$1").o"' _ {} < "$T/list" || { echo "demo: build failed"; exit 98; }
g++ SANITIZE "$T"/obj/*.o -o "$T/demo" -lyaml -lboost_filesystem -lboost_thread -lboost_system -lpthread || exit 98
cd "$T/run" && ASAN_OPTIONS=detect_leaks=LEAKS:abort_on_error=0 timeout 120 "$T/demo"
