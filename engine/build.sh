#!/bin/bash
# Builds the engine into /verif/build (or $1); incremental by content hash.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
out=$(cd "$out" && pwd)
stamp=$(cat "$here"/*.cpp "$here"/*.h "$here/build.sh" | sha256sum | cut -c1-20)
if [ -x "$out/sxe" ] && [ "$(cat "$out/sxe.stamp" 2>/dev/null)" = "$stamp" ]; then exit 0; fi
tmp=$(mktemp -d "$out/bld.XXXXXX")
trap 'find "$tmp" -delete' EXIT
pids=()
for f in selftest expr solver compile exec builtin main; do
    g++ -std=c++17 -O2 -fno-rtti -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -c "$here/$f.cpp" -o "$tmp/$f.o" &
    pids+=($!)
done
for p in "${pids[@]}"; do wait "$p"; done
g++ "$tmp"/*.o -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -o "$tmp/sxe"
"$tmp/sxe" --selftest 3000 && mv -f "$tmp/sxe" "$out/sxe"
echo "$stamp" > "$out/sxe.stamp"
