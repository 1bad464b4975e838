#!/bin/bash
# Builds the AST extractor (clang 18 libTooling) into $1.
set -e
cd "$(dirname "$0")"
out="$1"; mkdir -p "$(dirname "$out")"
g++ -std=c++17 -O0 -fno-rtti -w $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-O[0-9]//;s/-DNDEBUG//') dwx.cpp -o "$out.tmp.$$" \
   /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18
mv "$out.tmp.$$" "$out"
