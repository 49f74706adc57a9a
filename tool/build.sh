#!/bin/bash
# Builds the AST extractor into /verif/build (not committed); a no-op when it is up to date.
set -e
d=$(cd "$(dirname "$0")" && pwd)
out=$d/../build/astdump
mkdir -p "$d/../build"
h=$(sha256sum < "$d/extract.cpp" | cut -d' ' -f1)
if [ -x "$out" ] && [ "$(cat "$out.sha" 2>/dev/null)" = "$h" ]; then exit 0; fi
L=/usr/lib/llvm-18
tmp=$out.$$
/usr/bin/clang++ -std=c++17 -O1 -fno-rtti -w -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$d/extract.cpp" -o "$tmp" $L/lib/libclang-cpp.so.18.1 -L$L/lib -lLLVM-18 -Wl,-rpath,$L/lib
mv "$tmp" "$out"
echo "$h" > "$out.sha"
