#!/bin/bash
# usage: build.sh OUTDIR  -- compiles the symbolic executor
set -e
here="$(cd "$(dirname "$0")" && pwd)"; out="$1"; mkdir -p "$out"
F="-O2 -std=c++17 -w"
g++ $F -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -c "$here/symex.cpp" -o "$out/symex.o" &
g++ $F -c "$here/expr.cpp" -o "$out/expr.o" &
wait %1; wait %2
g++ "$out/symex.o" "$out/expr.o" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -o "$out/symex.tmp"
mv "$out/symex.tmp" "$out/symex"
