#!/bin/bash
# builds the fact extractor (offline, clang 18 development files of the sandbox)
set -e
D=$(cd "$(dirname "$0")" && pwd)
L=/usr/lib/llvm-18
O=${1:-$D/bin}
mkdir -p "$O"
if [ -x "$O/qdfacts" ] && [ "$O/qdfacts" -nt "$D/qdfacts.cpp" ]; then exit 0; fi
TMP=$(mktemp "$O/qdfacts.XXXXXX")
$L/bin/clang++ -std=c++17 -O1 -fno-rtti -fno-exceptions -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$D/qdfacts.cpp" -o "$TMP" -L$L/lib -Wl,-rpath,$L/lib -l:libclang-cpp.so.18.1 -lLLVM-18
chmod 755 "$TMP"
mv "$TMP" "$O/qdfacts"
