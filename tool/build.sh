#!/bin/bash
# builds the AST front end into /verif/build (git-ignored)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$here/../build
mkdir -p "$out"
if [ -x "$out/astdump" ] && [ "$out/astdump" -nt "$here/astdump.cpp" ]; then exit 0; fi
L=/usr/lib/llvm-18
/usr/bin/clang++-18 -std=c++17 -fno-rtti -O1 -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/astdump.cpp" -o "$out/astdump.tmp.$$" -L$L/lib "$L/lib/libclang-cpp.so.18.1" -Wl,-rpath,$L/lib -lLLVM-18
mv -f "$out/astdump.tmp.$$" "$out/astdump"
