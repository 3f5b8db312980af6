#!/bin/bash
# builds the extractor into /verif/build (idempotent; rebuilds when the source is newer)
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$here/../build"; mkdir -p "$out"
bin="$out/mitoextract"
if [ ! -x "$bin" ] || [ "$here/extract.cc" -nt "$bin" ]; then
  g++ -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
    "$here/extract.cc" -o "$bin.tmp.$$" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM-18.so
  mv "$bin.tmp.$$" "$bin"
fi
