#!/bin/bash
# build.sh OUT: builds the extractor
set -e
cd "$(dirname "$0")"
clang++-18 -std=c++17 -O0 $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') -fno-rtti -fexceptions extract.cc -o "$1.tmp.$$" \
  /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM-18.so
mv "$1.tmp.$$" "$1"
