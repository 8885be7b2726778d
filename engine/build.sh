#!/bin/sh
# Builds the engine into $1 (default /verif/build)
set -e
D=$(dirname "$0"); O=${1:-$D/../build}
mkdir -p "$O"
CXX="clang++-18"
F="-O2 -g1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -Wno-deprecated-declarations"
$CXX $F -fexceptions -c "$D/expr.cpp" -o "$O/expr.o" &
$CXX $F -fexceptions -frtti -c "$D/solver.cpp" -o "$O/solver.o" &
$CXX $F -fexceptions -c "$D/engine.cpp" -o "$O/engine.o" &
wait
$CXX "$O/expr.o" "$O/solver.o" "$O/engine.o" -o "$O/engine.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
mv "$O/engine.tmp" "$O/engine"
