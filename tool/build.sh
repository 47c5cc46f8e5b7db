#!/bin/bash
# builds the extractor into /verif/build
set -e
D="$(cd "$(dirname "$0")" && pwd)"
B="${1:-$D/../build}"
mkdir -p "$B"
clang++-18 -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE \
  -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$D/extract.cpp" -o "$B/salt-extract.tmp.$$" \
  /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM-18.so
mv "$B/salt-extract.tmp.$$" "$B/salt-extract"
