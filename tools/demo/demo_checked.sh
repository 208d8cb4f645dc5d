#!/bin/bash
# Builds the program with bounds-checked containers in a scratch directory and runs it on the configuration beside this script.
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$out"' EXIT
F="-std=c++17 -O0 -D_GLIBCXX_ASSERTIONS -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB -DSPDLOG_COMPILED_LIB -DFMT_SHARED -DBOOST_BIND_GLOBAL_PLACEHOLDERS -w -I/opt/vp/include/concurrentqueue"
ls "$PWD"/src/*.cpp "$PWD"/bin/groot.cpp | xargs -P 8 -I{} sh -c "g++ $F -c {} -o $out/\$(basename {}).o" || exit 3
g++ "$out"/*.o -o "$out/groot" -ldocopt -lboost_regex -lspdlog -lfmt -lboost_filesystem -lboost_system -lpthread || exit 3
DEMO_BIN="$out/groot" python3 "$here/demo.py"
