#!/bin/bash
# Builds the exporter against the installed clang 18 development files.
set -eu
d=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$d/../../build"
out="$d/../../build/exporter"
if [ -x "$out" ] && [ "$out" -nt "$d/exporter.cpp" ]; then exit 0; fi
flags=$(llvm-config-18 --cxxflags | sed 's/-std=c++17//')
lib=$(ls /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18* /usr/lib/llvm-18/lib/libclang-cpp.so.18* 2>/dev/null | head -1)
clang++-18 -std=c++17 -O1 -fno-rtti $flags "$d/exporter.cpp" -o "$out.tmp" "$lib" \
  -L/usr/lib/llvm-18/lib -lLLVM -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$out.tmp" "$out"
