#!/bin/bash
# builds the analysis tools into $1 (default /verif/.cache/bin)
set -e
D=$(cd "$(dirname "$0")" && pwd)
OUT=${1:-$D/../.cache/bin}
mkdir -p "$OUT"
L=/usr/lib/llvm-18
if [ ! -x "$OUT/absint" ] || [ "$D/absint.cpp" -nt "$OUT/absint" ] || [ "$D/algebra.h" -nt "$OUT/absint" ]; then
  g++ -O2 -std=c++17 -fno-rtti -w -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
    "$D/absint.cpp" -o "$OUT/absint.tmp.$$" -L$L/lib -lLLVM-18 -Wl,-rpath,$L/lib
  mv "$OUT/absint.tmp.$$" "$OUT/absint"
fi
