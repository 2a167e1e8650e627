#!/bin/bash
# builds the engine into $1
set -e
here=$(cd "$(dirname "$0")" && pwd); out=$1; mkdir -p "$out"
CXXF="-std=c++17 -O2 -g1 -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS"
Z3I="" ; Z3L="-lz3"
g++ $CXXF $Z3I -c "$here/expr.cpp" -o "$out/expr.o" &
g++ $CXXF $Z3I -c "$here/solver.cpp" -o "$out/solver.o" &
g++ $CXXF -Wno-unused-function -c "$here/vx.cpp" -o "$out/vx.o" &
wait %1; wait %2; wait %3
g++ "$out/expr.o" "$out/solver.o" "$out/vx.o" -L/usr/lib/llvm-18/lib -lLLVM-18 $Z3L -lpthread -o "$out/vx"
