#!/bin/bash
# builds the engine into $1
set -e
cd "$(dirname "$0")"
O="$1"; mkdir -p "$(dirname "$O")"; T="$O.tmp.$$"
g++ -std=c++17 -O2 -c expr.cpp -o "$T.e.o" &
g++ -std=c++17 -O2 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w -c engine.cpp -o "$T.m.o" &
g++ -std=c++17 -O1 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w prep.cpp -o "$T.p" -L/usr/lib/llvm-18/lib -lLLVM-18 &
wait %1; wait %2; wait %3
g++ "$T.e.o" "$T.m.o" -o "$T" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
rm -f "$T.e.o" "$T.m.o"; mv "$T.p" "$O.prep"; mv "$T" "$O"
