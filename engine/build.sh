#!/bin/bash
# builds the symbolic executor into $1
set -e
here=$(cd "$(dirname "$0")" && pwd); out=$1; mkdir -p "$out"
T=$(rustc +stable --print sysroot 2>/dev/null || ls -d /root/.rustup/toolchains/stable-*)
LL=$(ls "$T"/lib/libLLVM.so.* | head -1)
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
g++ -std=c++17 -O2 -w -I/usr/lib/llvm-18/include -I/usr/include/llvm-c-18 -I$Z/include -o "$out/eusym" "$here/eusym.cpp" -Wl,--no-as-needed -lstdc++ "$LL" -L$Z/lib -l:libz3.so -lpthread -Wl,-rpath,"$T/lib" -Wl,-rpath,$Z/lib
