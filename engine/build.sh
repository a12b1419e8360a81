#!/bin/bash
# builds /verif/build/symx
set -e
cd "$(dirname "$0")"
O=../build; mkdir -p $O
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
L=/usr/lib/llvm-18
(g++ -O2 -std=c++17 -c expr.cpp -o $O/expr.o) &
(g++ -O2 -std=c++17 -I$Z/include -c solver.cpp -o $O/solver.o) &
g++ -O2 -std=c++17 -w -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -c engine.cpp -o $O/engine.o
wait
g++ -rdynamic -no-pie $O/engine.o $O/expr.o $O/solver.o -o $O/symx -L$L/lib -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib -ldl -lpthread -lm
