#!/bin/bash
# differential test: minisc against the installed SystemC, for each *.cpp here
cd "$(dirname "$0")"; T=$(mktemp -d)
for f in ${@:-*.cpp}; do b=${f%.cpp}
 g++ -std=c++17 -w -O1 -fno-access-control -I../../../harness -I../../../harness/minisc $f ../../../harness/sx_native.cpp -o $T/m -lpthread $EXTRA || exit 1
 g++ -std=c++17 -w -O1 -fno-access-control -I../../../harness -DSX_SYSTEMC $f ../../../harness/sx_native.cpp -o $T/s -lsystemc $EXTRA || exit 1
 for s in 1 2 3 4 5; do SX_RANDOM=$s $T/m > $T/m.out 2>&1; SX_RANDOM=$s SC_COPYRIGHT_MESSAGE=DISABLE $T/s > $T/s.out 2>&1; cmp -s $T/m.out $T/s.out && echo "$b seed $s same ($(wc -l < $T/m.out) lines)" || { echo "$b seed $s DIFF"; diff $T/m.out $T/s.out | head -${N:-10}; }; done
done; rm -rf "$T"
