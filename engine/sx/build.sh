#!/bin/bash
# builds the symbolic executor into $1 (default: ../../bin/sx)
cd "$(dirname "$0")"
out=${1:-../../bin/sx}; mkdir -p "$(dirname "$out")"
FL=$(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//;s/-std=[^ ]*//')
g++ -O2 -w -std=c++17 $FL sx.cpp solver.cpp expr.cpp -o "$out.tmp$$" -L$(llvm-config-18 --libdir) -lLLVM-18 -lz3 && mv "$out.tmp$$" "$out"
