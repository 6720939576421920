#!/bin/bash
# builds the symbolic executor into /verif/build
set -e
here=$(cd "$(dirname "$0")" && pwd); out=$here/../build; mkdir -p "$out"
LL=/usr/lib/llvm-18
F="-std=c++17 -O2 -w -fno-rtti -g1 -rdynamic -I$LL/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
g++ $F "$here/sx.cpp" -o "$out/sx.tmp" -L$LL/lib -lLLVM-18 -lz3 && mv "$out/sx.tmp" "$out/sx"
