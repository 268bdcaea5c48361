#!/bin/bash
# builds the exporter into $1 (default ../build/exporter)
set -e
cd "$(dirname "$0")"
O=${1:-../build/exporter}
mkdir -p "$(dirname "$O")"
g++ -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include exporter.cpp -o "$O.tmp$$" \
    /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18
mv "$O.tmp$$" "$O"
