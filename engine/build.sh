#!/bin/bash
# builds the symbolic executor into /verif/bin/symex
set -e
cd "$(dirname "$0")"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
mkdir -p ../bin
if [ -f $Z/lib/libz3.so ] && [ -f $Z/include/z3.h ]; then ZI="-I$Z/include"; ZL="-L$Z/lib -Wl,-rpath,$Z/lib -lz3"; else ZI=""; ZL="-lz3"; fi
g++ -O2 -std=c++17 -frounding-math -w symex.cpp -o ../bin/symex $ZI $(/usr/bin/llvm-config-18 --cppflags --ldflags --libs core irreader bitreader support) $ZL -lpthread -ldl
