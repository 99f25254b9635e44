#!/bin/bash
# Builds the extractor (libTooling) into /verif/build; cheap when up to date.
set -e
cd "$(dirname "$0")"
mkdir -p build
if [ ! -x build/cobalt-extract ] || [ tool/extract.cc -nt build/cobalt-extract ]; then
  g++ -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS \
      -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS tool/extract.cc -o build/cobalt-extract.tmp.$$ \
      -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
  mv build/cobalt-extract.tmp.$$ build/cobalt-extract
fi
