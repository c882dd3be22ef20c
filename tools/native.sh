#!/bin/bash
# usage: native.sh in.bc(without rt_eh) out-exe
set -e
T=$(mktemp -d)
opt-18 -passes='forceattrs,tsan-module,function(tsan)' -force-attribute=sanitize_thread -tsan-instrument-func-entry-exit=0 -tsan-handle-cxx-exceptions=0 $1 -o $T/i.bc
clang++-18 -O0 -c -fPIC $T/i.bc -o $T/i.o -w
R=""; D=""; while read a b; do if [ $a = main ]; then R="$R --redefine-sym $a=$b"; else R="$R --redefine-sym $a=vk_n_$a"; D="$D -Wl,--defsym=vk_n_$a=$b"; fi; done < /verif/rt/syms.txt
objcopy $R $T/i.o
g++ -O1 -w -c -std=c++20 /verif/rt/replay_rt.cpp -o $T/rt.o
g++ $T/i.o $T/rt.o -o $2 -lpthread $D
rm -r $T
