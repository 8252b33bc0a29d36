#!/bin/sh
# builds the extractor (offline, clang 18 libraries)
cd "$(dirname "$0")" && mkdir -p build && T=build/.ex.$$ && clang++ -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include tool/extract.cpp -o $T -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM.so.18.1 -Wl,-rpath,/usr/lib/llvm-18/lib && mv $T build/dmx-extract
