#!/bin/bash
# Builds the extractor (offline; needs llvm-18 headers and libLLVM-18).
set -e
cd "$(dirname "$0")"
mkdir -p ../build
out=../build/pvx
if [ -x "$out" ] && [ "$out" -nt pvx.cpp ]; then exit 0; fi
clang++-18 -O1 -std=c++17 -fno-rtti $(llvm-config-18 --cppflags) pvx.cpp -o $out.$$ $(llvm-config-18 --ldflags --libs --system-libs) 
mv $out.$$ $out
