#!/bin/bash
# usage: cc.sh harness.cpp out.bc [extra flags]   (development helper; run_check.py does the same)
set -e
H=$1; O=$2; shift 2; T=$(mktemp -d); INC=/tmp/vkinc; mkdir -p $INC/macoro
sed -e 's/#cmakedefine MACORO_CPP_20.*/#define MACORO_CPP_20 ON/' -e 's,#cmakedefine \([A-Z0-9_]*\).*,/* #undef \1 */,' /repo/macoro/config.h.in > $INC/macoro/config.h
F="-std=c++20 -O1 -Xclang -disable-llvm-passes -g0 -emit-llvm -c -I/verif/rt -I$INC -I/repo -D_GLIBCXX_EXTERN_TEMPLATE=0 -D__libc_single_threaded=vk_lst -w -fno-access-control"
clang++-18 $F "$@" $H -o $T/h.bc & 
for f in /verif/rt/rt_eh.cpp /verif/rt/rt_common.cpp /repo/macoro/thread_pool.cpp /repo/macoro/detail/stop_state.cpp /repo/macoro/detail/stop_source.cpp /repo/macoro/detail/stop_token.cpp; do [ -f $f ] && clang++-18 $F "$@" $f -o $T/$(basename $f).bc & done; wait
llvm-link-18 $T/*.bc -o $T/l.bc
opt-18 -passes='internalize,module(coro-early),cgscc(coro-split),module(coro-cleanup),function(sroa,instsimplify,simplifycfg),globaldce' -internalize-public-api-list=main $T/l.bc -o $O
rm -f $T/l.bc $T/rt_eh.cpp.bc
llvm-link-18 $T/*.bc -o $T/n0.bc
opt-18 -passes='module(coro-early),cgscc(coro-split),module(coro-cleanup),function(sroa,instsimplify,simplifycfg),globaldce' $T/n0.bc -o ${O%.bc}.n.bc
rm -r $T
