#!/bin/bash
# Builds the AST exporter into $1
set -e
out=$1
/usr/bin/clang++ -O1 -g0 -w -fno-rtti $(llvm-config-18 --cxxflags) "$(dirname "$0")/cppx.cpp" -o "$out" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
