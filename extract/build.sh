#!/bin/bash
# Builds the fact extractor into /verif/build (ignored by git).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$here/../build"
mkdir -p "$out"
if [ "$out/hbx" -nt "$here/hbx.cpp" ]; then exit 0; fi
L=/usr/lib/llvm-18/lib
clang++ -std=c++17 -O1 -w -fno-rtti -I/usr/lib/llvm-18/include "$here/hbx.cpp" -o "$out/hbx.tmp" \
    -L$L -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,$L
mv "$out/hbx.tmp" "$out/hbx"
