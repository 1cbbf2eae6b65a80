#!/bin/bash
# builds the executor into /verif/build (git-ignored)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
z3=$(/opt/veriftools/pyvenv/bin/python3 -c 'import z3,os;print(os.path.dirname(z3.__file__))')
clang++-18 -std=c++17 -O2 -fno-rtti -fno-strict-aliasing -I/usr/lib/llvm-18/include -I"$z3/include" \
  -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/fse.cpp" -o "$out/fse.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -L"$z3/lib" -lz3 -Wl,-rpath,"$z3/lib"
mv "$out/fse.tmp" "$out/fse"
