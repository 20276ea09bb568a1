#!/bin/bash
# builds the symbolic executor: build.sh OUTPUT
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build/symex}
mkdir -p "$(dirname "$out")"
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ ! -f $Z3/include/z3++.h ] || [ ! -f $Z3/lib/libz3.so ]; then Z3INC=""; Z3LIB="-lz3"; else Z3INC="-I$Z3/include"; Z3LIB="$Z3/lib/libz3.so -Wl,-rpath,$Z3/lib"; fi
/usr/bin/clang++-18 -std=c++20 -O2 -g1 $Z3INC -I/usr/lib/llvm-18/include -fexceptions -frtti -Wno-deprecated \
  "$here/symex.cpp" -o "$out.tmp$$" -L/usr/lib/llvm-18/lib -lLLVM-18 $Z3LIB
mv "$out.tmp$$" "$out"
