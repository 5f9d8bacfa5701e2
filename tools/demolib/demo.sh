#!/bin/bash
# usage: demo.sh   (cwd: the repository, after its build).  Builds the library's sources with demo.cc and runs it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
opt="-std=c++17 -O2 -w -DSLALIB_THREAD_SAFE=@TS@ -Isrc"
ls src/*.cc | xargs -P 8 -I{} sh -c "g++ $opt -c {} -o $tmp/\$(basename {} .cc).o" || exit 3
g++ $opt -I"$here" "$here/demo.cc" "$tmp"/*.o -o "$tmp/demo" -lpthread -ldl || exit 3
cd "$tmp" && timeout 150 ./demo
