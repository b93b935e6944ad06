#!/bin/bash
# Builds the symbolic executor into build/symir (skips when up to date).
set -e
cd "$(dirname "$0")/.."
mkdir -p build
exec 9>build/.lock
flock 9
h=$(cat engine/*.cpp engine/*.hpp engine/*.inc engine/build.sh | sha256sum | cut -d' ' -f1)
if [ -x build/symir ] && [ "$(cat build/symir.hash 2>/dev/null)" = "$h" ]; then exit 0; fi
L=/usr/lib/llvm-18
( /usr/bin/clang++-18 -std=c++20 -O2 -fno-rtti -w -I$L/include -c engine/exec.cpp -o build/exec.o ) & p1=$!
( g++ -std=c++20 -O2 -w -c engine/expr.cpp -o build/expr.o ) & p2=$!
( g++ -std=c++20 -O2 -w -c engine/solver.cpp -o build/solver.o ) & p3=$!
wait $p1; wait $p2; wait $p3
g++ build/exec.o build/expr.o build/solver.o -L$L/lib -lLLVM-18 -lz3 -o build/symir.tmp
mv build/symir.tmp build/symir
echo $h > build/symir.hash
