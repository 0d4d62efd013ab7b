#!/bin/bash
# Builds the fact extractor into /verif/.cache (git-ignored). Offline; needs g++ and the installed LLVM 18 headers/libs.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../.cache/hfacts}
mkdir -p "$(dirname "$out")"
if [ -x "$out" ] && [ "$out" -nt "$here/hfacts.cc" ]; then exit 0; fi
CPPSO=/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18
[ -e $CPPSO ] || CPPSO=/usr/lib/llvm-18/lib/libclang-cpp.so.18.1
tmp=$out.tmp.$$
g++ -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include "$here/hfacts.cc" -o "$tmp" $CPPSO -L/usr/lib/llvm-18/lib -lLLVM-18
mv "$tmp" "$out"
