#!/bin/bash
# build.sh OUT : compile the symbolic executor against the newest z3 present
set -e
D=$(cd "$(dirname "$0")" && pwd); OUT=$1
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -f $Z/include/z3.h ] && [ -e $Z/lib/libz3.so ]; then F="-I$Z/include -L$Z/lib -Wl,-rpath,$Z/lib"; else F=""; fi
g++ -std=c++17 -O2 -w $D/symex.cpp -o $OUT $F -lz3 -lpthread
