#!/bin/bash
# builds the engine; idempotent
set -e
cd "$(dirname "$0")"
O=${KSE_BUILD:-../_build/engine}; mkdir -p "$O"
CX="$(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//;s/-std=c++17//;s/-O2//') -std=c++17 -O2 -fexceptions -w"
H=$(cat *.hpp *.cpp build.sh | sha256sum | cut -c1-16)
if [ -x "$O/kse" ] && [ "$(cat $O/stamp 2>/dev/null)" = "$H" ]; then exit 0; fi
for f in term poly smt path exec series; do g++ $CX -c $f.cpp -o "$O/$f.o" & done
for j in $(jobs -p); do wait $j || exit 1; done
g++ -o "$O/kse.tmp$$" "$O"/{term,poly,smt,path,exec,series}.o $(llvm-config-18 --ldflags --libs core irreader support demangle) -lgmpxx -lgmp
mv "$O/kse.tmp$$" "$O/kse"
echo "$H" > "$O/stamp"
