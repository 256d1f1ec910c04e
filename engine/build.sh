#!/bin/bash
# builds the symbolic executor into $1
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../build/engine}; mkdir -p "$(dirname "$out")"
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -f $Z3/include/z3.h ] && [ -f $Z3/lib/libz3.so ]; then ZI="-I$Z3/include"; ZL="-L$Z3/lib -lz3 -Wl,-rpath,$Z3/lib"; else ZI=""; ZL="-lz3"; fi
CXX=/usr/bin/clang++-18; [ -x $CXX ] || CXX=g++
$CXX -O2 -std=c++17 -w -I/usr/lib/llvm-18/include $ZI -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/engine.cpp" "$here/val.cpp" -o "$out.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib $ZL
mv "$out.tmp" "$out"
