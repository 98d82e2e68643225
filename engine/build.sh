#!/bin/bash
# builds the symbolic executor into /verif/build
set -e
cd "$(dirname "$0")"
mkdir -p ../build
if [ -x ../build/symex ] && [ ../build/symex -nt symex.cpp ] && [ ../build/symex -nt term.hpp ]; then exit 0; fi
g++ -std=c++20 -O2 -w -I/usr/lib/llvm-18/include -fexceptions symex.cpp -o ../build/symex.tmp -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
mv ../build/symex.tmp ../build/symex
