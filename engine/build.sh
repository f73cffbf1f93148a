#!/bin/bash
# Build the symbolic executor into $1 (default: build/ next to this file).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/build}
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
mkdir -p "$out"
CXXF="-O2 -g1 -std=c++20 -fno-strict-aliasing -I$Z/include $(llvm-config-18 --cppflags) -Wall -Wno-unused-variable -Wno-deprecated-declarations"
for f in expr solver exec prep main; do
    if [ ! -f "$out/$f.o" ] || [ -n "$(find "$here" -maxdepth 1 -newer "$out/$f.o" \( -name "$f.cpp" -o -name '*.h' \))" ]; then
        ( g++ $CXXF -c "$here/$f.cpp" -o "$out/$f.o.tmp" && mv "$out/$f.o.tmp" "$out/$f.o" ) &
    fi
done
fail=0
for j in $(jobs -p); do wait $j || fail=1; done
[ $fail = 0 ]
g++ -o "$out/symx.tmp" "$out"/{expr,solver,exec,prep,main}.o $(llvm-config-18 --ldflags --libs) "$Z/lib/libz3.so" -Wl,-rpath,"$Z/lib" -lpthread
mv "$out/symx.tmp" "$out/symx"
