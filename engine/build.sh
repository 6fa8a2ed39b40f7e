#!/bin/bash
# Build the symbolic executor into the directory given (default /verif/.work)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../.work}
mkdir -p "$out"
Z3D=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -f "$Z3D/include/z3.h" ] && [ -f "$Z3D/lib/libz3.so" ]; then ZI="-I$Z3D/include"; ZL="-L$Z3D/lib -Wl,-rpath,$Z3D/lib -lz3"; else ZI=""; ZL="-lz3"; fi
g++ -std=c++17 -O2 -w $ZI -I/usr/include/llvm-18 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "$here/symex.cpp" -o "$out/vsym.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 $ZL
mv "$out/vsym.tmp" "$out/vsym"
