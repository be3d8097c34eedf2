#!/bin/sh
# builds the symx engine into $1 (default /verif/build)
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:-$D/../build}; mkdir -p "$O"
LF=$(llvm-config-18 --cppflags)
[ "$O/decode.o" -nt "$D/decode.cpp" -a "$O/decode.o" -nt "$D/prog.h" ] || g++ -std=c++17 -O1 -fno-rtti $LF -c "$D/decode.cpp" -o "$O/decode.o" &
[ "$O/expr.o" -nt "$D/expr.cpp" -a "$O/expr.o" -nt "$D/expr.h" ] || g++ -std=c++17 -O2 -c "$D/expr.cpp" -o "$O/expr.o" &
g++ -std=c++17 -O2 -c "$D/engine.cpp" -o "$O/engine.o" &
wait
g++ "$O/decode.o" "$O/expr.o" "$O/engine.o" -o "$O/symx.tmp" -L$(llvm-config-18 --libdir) -lLLVM-18 -lz3 && mv "$O/symx.tmp" "$O/symx"
