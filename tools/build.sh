#!/bin/bash
# Builds the fact extractor into /verif/.build (ignored by git).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$here/../.build
mkdir -p "$out"
if [ "$out/cfacts" -nt "$here/cfacts.cc" ]; then exit 0; fi
LC=/usr/bin/llvm-config-18; [ -x $LC ] || LC=llvm-config
/usr/bin/clang++ -O2 -std=c++17 -w $($LC --cxxflags | sed 's/-std=[^ ]*//') -fno-rtti "$here/cfacts.cc" -o "$out/cfacts.tmp" \
  -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
mv "$out/cfacts.tmp" "$out/cfacts"
