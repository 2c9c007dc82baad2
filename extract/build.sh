#!/bin/bash
# builds the clang-based extractor into $1
set -e
OUT="$1"; HERE="$(cd "$(dirname "$0")" && pwd)"
g++ -std=c++17 -fno-rtti -O1 -w -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -D_GNU_SOURCE "$HERE/vegaextract.cpp" -o "$OUT.tmp" /usr/lib/llvm-18/lib/libclangTooling.a /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM.so.18.1 -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$OUT.tmp" "$OUT"
